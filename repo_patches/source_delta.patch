From 2837a4c0bdad54398caa45deb92b3a85c3cd7e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:36 +0000
Subject: [PATCH 01/34] fix: generate numbers for bounds beyond the generator
 defaults

---
 d42/generation/_generator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index ac1b55b..200516e 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -69,7 +69,9 @@ class Generator(SchemaVisitor[Any]):
             return schema.props.value
 
         min_value = schema.props.min if (schema.props.min is not Nil) else INT_MIN
-        max_value = schema.props.max if (schema.props.max is not Nil) else INT_MAX
+        max_value = schema.props.max if (schema.props.max is not Nil) else max(INT_MAX, min_value)
+        if schema.props.min is Nil:
+            min_value = min(INT_MIN, max_value)
         return self._random.random_int(min_value, max_value)
 
     def visit_float(self, schema: FloatSchema, **kwargs: Any) -> float:
@@ -77,7 +79,9 @@ class Generator(SchemaVisitor[Any]):
             return schema.props.value
 
         min_value = schema.props.min if (schema.props.min is not Nil) else FLOAT_MIN
-        max_value = schema.props.max if (schema.props.max is not Nil) else FLOAT_MAX
+        max_value = schema.props.max if (schema.props.max is not Nil) else max(FLOAT_MAX, min_value)
+        if schema.props.min is Nil:
+            min_value = min(FLOAT_MIN, max_value)
         precision = schema.props.precision if (schema.props.precision is not Nil) else Nil
 
         if precision is not Nil:
-- 
2.43.0


From f6eb6f6b77a18af2ba98f8812ab16562bafa99a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:52 +0000
Subject: [PATCH 02/34] fix: keep random floats finite and inside the requested
 range

---
 d42/generation/_generator.py |  8 ++++++--
 d42/generation/_random.py    | 30 +++++++++++++++++++++++++++---
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index 200516e..35066ef 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -69,7 +69,9 @@ class Generator(SchemaVisitor[Any]):
             return schema.props.value
 
         min_value = schema.props.min if (schema.props.min is not Nil) else INT_MIN
-        max_value = schema.props.max if (schema.props.max is not Nil) else max(INT_MAX, min_value)
+        max_value = schema.props.max if (schema.props.max is not Nil) else INT_MAX
+        if schema.props.max is Nil:
+            max_value = max(INT_MAX, min_value)
         if schema.props.min is Nil:
             min_value = min(INT_MIN, max_value)
         return self._random.random_int(min_value, max_value)
@@ -79,7 +81,9 @@ class Generator(SchemaVisitor[Any]):
             return schema.props.value
 
         min_value = schema.props.min if (schema.props.min is not Nil) else FLOAT_MIN
-        max_value = schema.props.max if (schema.props.max is not Nil) else max(FLOAT_MAX, min_value)
+        max_value = schema.props.max if (schema.props.max is not Nil) else FLOAT_MAX
+        if schema.props.max is Nil:
+            max_value = max(FLOAT_MAX, min_value)
         if schema.props.min is Nil:
             min_value = min(FLOAT_MIN, max_value)
         precision = schema.props.precision if (schema.props.precision is not Nil) else Nil
diff --git a/d42/generation/_random.py b/d42/generation/_random.py
index aeb3873..02e4f4d 100644
--- a/d42/generation/_random.py
+++ b/d42/generation/_random.py
@@ -1,4 +1,7 @@
+import math
 import random
+import sys
+from fractions import Fraction
 from typing import Any, List, Sequence, TypeVar, cast
 
 from niltype import Nil, Nilable
@@ -20,16 +23,37 @@ class Random:
         if start > end:
             raise ValueError("random_float: start must be <= end")
 
+        if start == end:
+            return start
+
+        start = max(start, -sys.float_info.max)
+        end = min(end, sys.float_info.max)
+
         if precision is Nil:
-            return random.uniform(start, end)
+            return self._random_uniform(start, end)
 
         scale_factor = 10 ** precision
-        left_number = int(start * scale_factor)
-        right_number = int(end * scale_factor)
+        left_number = math.floor(Fraction(start) * scale_factor)
+        if left_number / scale_factor < start:
+            left_number += 1
+        right_number = math.ceil(Fraction(end) * scale_factor)
+        if right_number / scale_factor > end:
+            right_number -= 1
+
+        if left_number > right_number:  # no such number between start and end
+            return self._random_uniform(start, end)
 
         result = cast(float, self.random_int(left_number, right_number) / scale_factor)
         return round(result, precision)
 
+    def _random_uniform(self, start: float, end: float) -> float:
+        if math.isinf(end - start):
+            ratio = random.random()
+            result = start * (1 - ratio) + end * ratio
+        else:
+            result = random.uniform(start, end)
+        return min(max(result, start), end)
+
     def random_str(self, length: int, alphabet: str) -> str:
         return "".join(random.choice(alphabet) for _ in range(length))
 
-- 
2.43.0


From 059d1e8bc5f58b99d809477a5e899d153c7a012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 03/34] fix: generate strings and lists longer than the
 generator defaults

---
 d42/generation/_generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index 35066ef..60e74ab 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -105,9 +105,13 @@ class Generator(SchemaVisitor[Any]):
         else:
             min_length = schema.props.min_len if (schema.props.min_len is not Nil) else STR_LEN_MIN
             max_length = schema.props.max_len if (schema.props.max_len is not Nil) else STR_LEN_MAX
+            if schema.props.max_len is Nil:
+                max_length = max(STR_LEN_MAX, min_length)
             if schema.props.substr is not Nil:
                 min_length = max(min_length, len(schema.props.substr))
                 max_length = max(max_length, len(schema.props.substr))
+            if schema.props.alphabet == "":
+                max_length = min_length
             length = self._random.random_int(min_length, max_length)
 
         if schema.props.alphabet is not Nil:
@@ -141,7 +145,7 @@ class Generator(SchemaVisitor[Any]):
             if schema.props.min_len is not Nil:
                 min_length = schema.props.min_len
                 is_length_specified = True
-            max_length = LIST_LEN_MAX
+            max_length = max(LIST_LEN_MAX, min_length)
             if schema.props.max_len is not Nil:
                 max_length = schema.props.max_len
                 is_length_specified = True
-- 
2.43.0


From bf1dc2ec81fe19d14c1c897533b6361a3894979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 04/34] fix: generate enough elements for a list with '...' and
 a declared length

---
 d42/generation/_generator.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_generator.py b/d42/generation/_generator.py
index 60e74ab..8014c7f 100644
--- a/d42/generation/_generator.py
+++ b/d42/generation/_generator.py
@@ -1,5 +1,5 @@
 from datetime import date, datetime, timedelta
-from typing import Any, Dict, List
+from typing import Any, Dict, List, cast
 from uuid import UUID, uuid4
 
 from niltype import Nil
@@ -134,6 +134,8 @@ class Generator(SchemaVisitor[Any]):
                 if is_ellipsis(elem):
                     continue
                 elements.append(elem.__accept__(self, **kwargs))
+            if len(elements) < len(schema.props.elements):
+                return self._pad_elements(schema, elements)
             return elements
 
         is_length_specified = False
@@ -158,6 +160,17 @@ class Generator(SchemaVisitor[Any]):
             return [[] for _ in range(length)]
         return []
 
+    def _pad_elements(self, schema: ListSchema, elements: List[Any]) -> List[Any]:
+        length = 0
+        if schema.props.len is not Nil:
+            length = schema.props.len
+        elif schema.props.min_len is not Nil:
+            length = schema.props.min_len
+        padding: List[Any] = [[] for _ in range(length - len(elements))]
+        if not is_ellipsis(cast(List[Any], schema.props.elements)[-1]):
+            return padding + elements
+        return elements + padding
+
     def visit_dict(self, schema: DictSchema, **kwargs: Any) -> Dict[Any, Any]:
         generated: Dict[Any, Any] = {}
         if schema.props.keys is Nil:
-- 
2.43.0


From 89f020e8f5f9590f73fedcdd091cc91e855b5294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 05/34] fix: do not treat a repeat count of 44 as an open-ended
 repeat

---
 d42/generation/_regex_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index 428c229..cec2b25 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -111,7 +111,7 @@ class RegexGenerator:
 
     def _generate_max_repeat(self, value: Tuple[int, int, List[Any]]) -> str:
         min_count, max_count, val = value
-        if max_count in (MAX_REPEAT, MAXREPEAT):
+        if max_count == MAXREPEAT:
             max_count = max(self._max_repeat, min_count)
         count = self._random.random_int(min_count, max_count)
         return "".join(self._generate_pattern(val) for _ in range(count))
-- 
2.43.0


From 54dcba2aebaf96b0018c2d6007198734c5d9f6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 06/34] fix: make negated character classes independent of hash
 randomization

---
 d42/generation/_regex_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index cec2b25..f06c483 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -104,7 +104,9 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
-        return self._random.random_choice(letters)
+        drawn = self._random.random_choice(letters)
+        # the order of a set of characters depends on hash randomization
+        return sorted(letters)[letters.index(drawn)]
 
     def _generate_not_literal(self, value: int) -> str:
         return self._generate_not_in([(LITERAL, value)])
-- 
2.43.0


From 72b94d6437f1926802ffaf8169642d7ce4230b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 07/34] fix: generate letters for negated classes that exclude
 the whole alphabet

---
 d42/generation/_regex_generator.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index f06c483..aa4a489 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -104,10 +104,20 @@ class RegexGenerator:
                 exclude_letters += self._generate(opcode, val)
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
+        if len(letters) == 0:
+            return self._get_letter_except(exclude_letters)
         drawn = self._random.random_choice(letters)
         # the order of a set of characters depends on hash randomization
         return sorted(letters)[letters.index(drawn)]
 
+    def _get_letter_except(self, exclude_letters: str) -> str:
+        excluded = set(exclude_letters)
+        for letter in map(chr, range(sys.maxunicode + 1)):
+            # categories cover non-ASCII alphanumeric characters too
+            if (letter not in excluded) and not letter.isalnum():
+                return letter
+        raise ValueError("No letters left outside of the negated character class")
+
     def _generate_not_literal(self, value: int) -> str:
         return self._generate_not_in([(LITERAL, value)])
 
-- 
2.43.0


From bf0cf7ecdb27e97d83375cea81ae6da7f66eec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:24 +0000
Subject: [PATCH 08/34] fix: nan is never within declared float bounds

---
 d42/declaration/types/_float_schema.py | 4 ++--
 d42/validation/_validator.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/d42/declaration/types/_float_schema.py b/d42/declaration/types/_float_schema.py
index 607f444..a03ec32 100644
--- a/d42/declaration/types/_float_schema.py
+++ b/d42/declaration/types/_float_schema.py
@@ -67,7 +67,7 @@ class FloatSchema(Schema[FloatProps]):
         if self.props.min is not Nil:
             raise make_already_declared_error(self)
 
-        if (self.props.value is not Nil) and (value > self.props.value):
+        if (self.props.value is not Nil) and not (value <= self.props.value):
             raise make_incorrect_min_error(self, self.props.value, value)
 
         return self.__class__(self.props.update(min=value))
@@ -79,7 +79,7 @@ class FloatSchema(Schema[FloatProps]):
         if self.props.max is not Nil:
             raise make_already_declared_error(self)
 
-        if (self.props.value is not Nil) and (value < self.props.value):
+        if (self.props.value is not Nil) and not (value >= self.props.value):
             raise make_incorrect_max_error(self, self.props.value, value)
 
         return self.__class__(self.props.update(max=value))
diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 9724c45..ef5d520 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -176,11 +176,11 @@ class Validator(SchemaVisitor[ValidationResult]):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
 
         if schema.props.min is not Nil:
-            if value < schema.props.min:
+            if not (value >= schema.props.min):
                 result.add_error(MinValueValidationError(path, value, schema.props.min))
 
         if schema.props.max is not Nil:
-            if value > schema.props.max:
+            if not (value <= schema.props.max):
                 result.add_error(MaxValueValidationError(path, value, schema.props.max))
 
         return result
-- 
2.43.0


From 17afb079263fadb1e5ff3ff9fa4d498d6a4ac470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:29 +0000
Subject: [PATCH 09/34] fix: compare non-finite and huge floats without raising

---
 d42/validation/_validator.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index ef5d520..6b7a204 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -1,7 +1,7 @@
 import re
 from copy import deepcopy
 from datetime import date, datetime
-from math import isclose
+from math import isclose, isfinite, isnan
 from typing import Any, Callable, List, Optional, Type, cast
 from uuid import UUID
 
@@ -165,13 +165,22 @@ class Validator(SchemaVisitor[ValidationResult]):
             return result.add_error(error)
 
         if schema.props.value is not Nil:
-            if schema.props.precision is Nil:
+            if isnan(schema.props.value) or isnan(value):
+                if not (isnan(schema.props.value) and isnan(value)):
+                    return result.add_error(ValueValidationError(path, value, schema.props.value))
+            elif schema.props.precision is Nil:
                 if not isclose(value, schema.props.value):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
             else:
                 scale_factor = 10 ** schema.props.precision
-                scaled_actual = round(value * scale_factor)
-                scaled_expected = round(schema.props.value * scale_factor)
+                scaled_actual = value * scale_factor
+                scaled_expected = schema.props.value * scale_factor
+                if isfinite(scaled_actual) and isfinite(scaled_expected):
+                    scaled_actual = round(scaled_actual)
+                    scaled_expected = round(scaled_expected)
+                else:  # too large to have a fractional part
+                    scaled_actual = value
+                    scaled_expected = schema.props.value
                 if not isclose(scaled_expected, scaled_actual, rel_tol=0, abs_tol=0):
                     return result.add_error(ValueValidationError(path, value, schema.props.value))
 
-- 
2.43.0


From 7b6ea6e657f9f36bd524163ef649e4a994edd31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 10/34] fix: report the path of an alphabet error

---
 d42/validation/_validator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index 6b7a204..e6f63cf 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -233,7 +233,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             for letter in value:
                 if letter not in alphabet:
                     return result.add_error(
-                        AlphabetValidationError(PathHolder(), value, schema.props.alphabet))
+                        AlphabetValidationError(path, value, schema.props.alphabet))
 
         return result
 
-- 
2.43.0


From 918fb98b271d5ba6459febb582887b95e6e970f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:04 +0000
Subject: [PATCH 11/34] fix: do not copy dict keys that are part of an error
 path

---
 d42/substitution/_validator.py |  5 ++---
 d42/validation/_formatter.py   |  5 ++---
 d42/validation/_validator.py   | 12 +++++++++---
 3 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/d42/substitution/_validator.py b/d42/substitution/_validator.py
index 20cb90e..4de8de3 100644
--- a/d42/substitution/_validator.py
+++ b/d42/substitution/_validator.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Any
 
 from niltype import Nil, Nilable
@@ -48,7 +47,7 @@ class SubstitutorValidator(Validator):
             for index, elem in enumerate(value):
                 if is_ellipsis(elem) and (index == 0 or index == len(value) - 1):
                     continue
-                nested_path = deepcopy(path)[index]
+                nested_path = self._make_nested_path(path, index)
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -74,7 +73,7 @@ class SubstitutorValidator(Validator):
             if key in value:
                 if is_ellipsis(value[key]):
                     continue
-                nested_path = deepcopy(path)[key]
+                nested_path = self._make_nested_path(path, key)
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
 
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 362ed12..834f5b3 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -1,4 +1,3 @@
-from copy import deepcopy
 from typing import Any, Sequence
 
 from th import PathHolder
@@ -115,7 +114,7 @@ class Formatter(AbstractFormatter):
                 f"must match pattern {error.pattern!r}, but {error.actual_value!r} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
-        path = deepcopy(error.path)
+        path = PathHolder(self._root, [*error.path])
         formatted_path = self._format_path(path[error.index])
         return f"Element {formatted_path} does not exist"
 
@@ -124,7 +123,7 @@ class Formatter(AbstractFormatter):
         return f"Value{formatted_path} contains extra element at index {error.index!r}"
 
     def format_missing_key_error(self, error: MissingKeyValidationError) -> str:
-        path = deepcopy(error.path)
+        path = PathHolder(self._root, [*error.path])
         formatted_path = self._format_path(path[error.missing_key])
         return f"Key {formatted_path} does not exist"
 
diff --git a/d42/validation/_validator.py b/d42/validation/_validator.py
index e6f63cf..152f3c7 100644
--- a/d42/validation/_validator.py
+++ b/d42/validation/_validator.py
@@ -64,6 +64,12 @@ class Validator(SchemaVisitor[ValidationResult]):
     def make_path(self) -> PathHolder:
         return self._path_holder_factory()
 
+    def _make_nested_path(self, path: PathHolder, key: Any) -> PathHolder:
+        if not isinstance(path, PathHolder):
+            return deepcopy(path)[key]
+        # keys are not copied, because they have to lead to the same values
+        return path.__class__(path.__name__, [*path])[key]
+
     def _validate_type(self, path: PathHolder, value: Any,
                        expected_type: Type[Any]) -> Optional[ValidationError]:
         if not isinstance(value, expected_type):
@@ -91,7 +97,7 @@ class Validator(SchemaVisitor[ValidationResult]):
                 errors.append(MissingElementValidationError(path, value, real_index))
                 break
             else:
-                nested_path = deepcopy(path)[real_index]
+                nested_path = self._make_nested_path(path, real_index)
                 res = element_schema.__accept__(self, value=val, path=nested_path, **kwargs)
                 errors += res.get_errors()
         return errors
@@ -265,7 +271,7 @@ class Validator(SchemaVisitor[ValidationResult]):
         if schema.props.type is not Nil:
             type_schema = schema.props.type
             for index, elem in enumerate(value):
-                nested_path = deepcopy(path)[index]
+                nested_path = self._make_nested_path(path, index)
                 res = type_schema.__accept__(self, value=elem, path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             return result
@@ -321,7 +327,7 @@ class Validator(SchemaVisitor[ValidationResult]):
             if is_ellipsis(key):
                 continue
             if key in value:
-                nested_path = deepcopy(path)[key]
+                nested_path = self._make_nested_path(path, key)
                 res = val.__accept__(self, value=value[key], path=nested_path, **kwargs)
                 result.add_errors(res.get_errors())
             else:
-- 
2.43.0


From f6c2d23889fd20b4ca46fb960e4e30bb5167d593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 12/34] fix: report values that have no printable
 representation

---
 d42/declaration/_safe_repr.py         | 10 ++++++++
 d42/declaration/errors/__init__.py    | 18 ++++++++------
 d42/declaration/types/_dict_schema.py |  5 ++--
 d42/substitution/_substitutor.py      |  5 ++--
 d42/utils/_make_required.py           |  7 +++---
 d42/validation/_formatter.py          | 36 ++++++++++++++++-----------
 6 files changed, 53 insertions(+), 28 deletions(-)
 create mode 100644 d42/declaration/_safe_repr.py

diff --git a/d42/declaration/_safe_repr.py b/d42/declaration/_safe_repr.py
new file mode 100644
index 0000000..b7bf492
--- /dev/null
+++ b/d42/declaration/_safe_repr.py
@@ -0,0 +1,10 @@
+from typing import Any
+
+__all__ = ("safe_repr",)
+
+
+def safe_repr(value: Any) -> str:
+    try:
+        return repr(value)
+    except Exception:  # e.g. an integer that exceeds the limit for string conversion
+        return f"<unprintable {type(value).__name__} object>"
diff --git a/d42/declaration/errors/__init__.py b/d42/declaration/errors/__init__.py
index 1dceac9..4da0905 100644
--- a/d42/declaration/errors/__init__.py
+++ b/d42/declaration/errors/__init__.py
@@ -1,5 +1,7 @@
 from typing import TYPE_CHECKING, Any, Sized, Tuple, Type
 
+from .._safe_repr import safe_repr
+
 if TYPE_CHECKING:
     from ..types import GenericSchema
 
@@ -25,7 +27,7 @@ def make_invalid_type_error(schema: "GenericSchema", value: Any,
     types_ = tuple(map(_get_type_name, types))
     if len(types) == 1:
         message = (f"`{schema!r}` value must be an instance of '{_get_type_name(types[0])}', "
-                   f"instance of {value_type_name!r} {value!r} given")
+                   f"instance of {value_type_name!r} {safe_repr(value)} given")
     else:
         message = (f"`{schema!r}` value must be an instance of {types_!r}, "
                    f"instance of {value_type_name!r} given")
@@ -39,38 +41,40 @@ def make_already_declared_error(schema: "GenericSchema") -> DeclarationError:
 
 def make_incorrect_min_error(schema: "GenericSchema",
                              value: Any, min_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` min value must be less than or equal to {value}, {min_value} given"
+    message = (f"`{schema!r}` min value must be less than or equal to {safe_repr(value)}, "
+               f"{safe_repr(min_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_error(schema: "GenericSchema",
                              value: Any, max_value: Any) -> DeclarationError:
-    message = f"`{schema!r}` max value must be greater than or equal to {value}, {max_value} given"
+    message = (f"`{schema!r}` max value must be greater than or equal to {safe_repr(value)}, "
+               f"{safe_repr(max_value)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_len_error(schema: "GenericSchema",
                              value: Sized, length: int) -> DeclarationError:
-    message = f"`{schema!r}` len must be equal to {len(value)}, {length} given"
+    message = f"`{schema!r}` len must be equal to {len(value)}, {safe_repr(length)} given"
     return DeclarationError(message)
 
 
 def make_incorrect_min_len_error(schema: "GenericSchema",
                                  value: Sized, min_length: int) -> DeclarationError:
     message = (f"`{schema!r}` min len must be less than or equal to {len(value)}, "
-               f"{min_length} given")
+               f"{safe_repr(min_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_max_len_error(schema: "GenericSchema",
                                  value: Sized, max_length: int) -> DeclarationError:
     message = (f"`{schema!r}` max len must be greater than or equal to {len(value)}, "
-               f"{max_length} given")
+               f"{safe_repr(max_length)} given")
     return DeclarationError(message)
 
 
 def make_incorrect_precision_error(schema: "GenericSchema",
                                    precision: int, max_precision: int) -> DeclarationError:
     message = (f"`{schema!r}` precision must be greater than 0 or less than {max_precision}, "
-               f"{precision} given")
+               f"{safe_repr(precision)} given")
     return DeclarationError(message)
diff --git a/d42/declaration/types/_dict_schema.py b/d42/declaration/types/_dict_schema.py
index e3e458c..2f28379 100644
--- a/d42/declaration/types/_dict_schema.py
+++ b/d42/declaration/types/_dict_schema.py
@@ -5,6 +5,7 @@ from niltype import Nil, Nilable
 
 from .._is_ellipsis import TypeOrEllipsis, is_ellipsis
 from .._props import Props
+from .._safe_repr import safe_repr
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
 from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
@@ -43,10 +44,10 @@ class DictSchema(Schema[DictProps]):
         for key, val in keys.items():
             if is_ellipsis(key) or is_ellipsis(val):
                 if not is_ellipsis(key):
-                    message = f"Inappropriate type of key {key!r} ({type(key)!r})"
+                    message = f"Inappropriate type of key {safe_repr(key)} ({type(key)!r})"
                     raise DeclarationError(message)
                 if not is_ellipsis(val):
-                    message = f"Inappropriate type of value {val!r} ({type(val)!r})"
+                    message = f"Inappropriate type of value {safe_repr(val)} ({type(val)!r})"
                     raise DeclarationError(message)
             else:
                 if not isinstance(val, Schema):
diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 93f4c15..1851d9b 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -3,6 +3,7 @@ from typing import Any, Dict, List, Optional, cast
 from niltype import Nil
 
 from d42.declaration import SchemaVisitor
+from d42.declaration._safe_repr import safe_repr
 from d42.declaration.types import (
     AnySchema,
     BoolSchema,
@@ -47,7 +48,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         try:
             return from_native(value)
         except ValueError:
-            raise SubstitutionError(f"Can't convert {value!r} to schema")
+            raise SubstitutionError(f"Can't convert {safe_repr(value)} to schema")
 
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
@@ -184,7 +185,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     keys[key] = (val, is_optional)
             for key, val in value.items():
                 if key not in schema.props.keys:
-                    raise SubstitutionError(f"Unknown key {key!r}")
+                    raise SubstitutionError(f"Unknown key {safe_repr(key)}")
 
         return schema.__class__(schema.props.update(keys=keys))
 
diff --git a/d42/utils/_make_required.py b/d42/utils/_make_required.py
index 32b4191..0df4824 100644
--- a/d42/utils/_make_required.py
+++ b/d42/utils/_make_required.py
@@ -2,6 +2,7 @@ from typing import Any, List, Optional, Set, Tuple, Union
 
 from niltype import Nil
 
+from d42.declaration._safe_repr import safe_repr
 from d42.declaration.errors import DeclarationError
 from d42.declaration.types import DictSchema
 
@@ -14,11 +15,11 @@ RequiredKeysType = Union[Set[str], List[str], Tuple[str, ...]]
 def make_required(schema: Union[DictSchema, Any],
                   keys: Optional[RequiredKeysType] = None) -> DictSchema:
     if not isinstance(schema, DictSchema):
-        message = f"Inappropriate type of schema {schema!r} ({type(schema)!r})"
+        message = f"Inappropriate type of schema {safe_repr(schema)} ({type(schema)!r})"
         raise DeclarationError(message)
 
     if not isinstance(keys, (set, list, tuple, type(None))):
-        message = f"Inappropriate type of keys {keys!r} ({type(keys)!r})"
+        message = f"Inappropriate type of keys {safe_repr(keys)} ({type(keys)!r})"
         raise DeclarationError(message)
 
     if keys is None:
@@ -27,7 +28,7 @@ def make_required(schema: Union[DictSchema, Any],
     props_keys = schema.props.keys if (schema.props.keys is not Nil) else {}
     for key in keys:
         if key not in props_keys:
-            message = f"Nonexisting key {key!r}"
+            message = f"Nonexisting key {safe_repr(key)}"
             raise DeclarationError(message)
 
     if schema.props.keys is Nil:
diff --git a/d42/validation/_formatter.py b/d42/validation/_formatter.py
index 834f5b3..7e3d461 100644
--- a/d42/validation/_formatter.py
+++ b/d42/validation/_formatter.py
@@ -2,6 +2,8 @@ from typing import Any, Sequence
 
 from th import PathHolder
 
+from d42.declaration._safe_repr import safe_repr
+
 from ._abstract_formatter import AbstractFormatter
 from .errors import (
     AlphabetValidationError,
@@ -34,7 +36,11 @@ class Formatter(AbstractFormatter):
         return self._root
 
     def _format_path(self, path: PathHolder) -> str:
-        return str(path.__class__(self._root, [x for x in path]))
+        path = path.__class__(self._root, [x for x in path])
+        try:
+            return str(path)
+        except Exception:  # e.g. an unprintable key
+            return self._root + "".join(f"[{safe_repr(x.operand)}]" for x in path)
 
     def _at_path(self, path: PathHolder) -> str:
         return " at " + self._format_path(path) if len(path) > 0 else ""
@@ -48,28 +54,29 @@ class Formatter(AbstractFormatter):
     def format_type_error(self, error: TypeValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
-        return (f"Value {error.actual_value!r}{formatted_path} "
+        return (f"Value {safe_repr(error.actual_value)}{formatted_path} "
                 f"must be {error.expected_type}, but {actual_type} given")
 
     def format_value_error(self, error: ValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be equal to {error.expected_value!r}, but {error.actual_value!r} given")
+                f"must be equal to {safe_repr(error.expected_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_min_value_error(self, error: MinValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be greater than or equal to {error.min_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be greater than or equal to {safe_repr(error.min_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_max_value_error(self, error: MaxValueValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must be less than or equal to {error.max_value!r}, "
-                f"but {error.actual_value!r} given")
+                f"must be less than or equal to {safe_repr(error.max_value)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def _format_length_error(self, path: PathHolder, actual_value: Any,
                              length: int, accuracy: str) -> str:
@@ -79,7 +86,7 @@ class Formatter(AbstractFormatter):
         options = ("element", "elements")
         return (
             f"Value {actual_type}{formatted_path} "
-            f"must have {accuracy} {length} {self._pluralize(length, options)}, "
+            f"must have {accuracy} {safe_repr(length)} {self._pluralize(length, options)}, "
             f"but it has {actual_len} {self._pluralize(actual_len, options)}"
         )
 
@@ -99,19 +106,19 @@ class Formatter(AbstractFormatter):
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must contain only {error.alphabet!r}, but {error.actual_value!r} given")
+                f"must contain only {error.alphabet!r}, but {safe_repr(error.actual_value)} given")
 
     def format_substr_error(self, error: SubstrValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must contain {error.substr!r}, but {error.actual_value!r} given")
+                f"must contain {error.substr!r}, but {safe_repr(error.actual_value)} given")
 
     def format_regex_error(self, error: RegexValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match pattern {error.pattern!r}, but {error.actual_value!r} given")
+                f"must match pattern {error.pattern!r}, but {safe_repr(error.actual_value)} given")
 
     def format_missing_element_error(self, error: MissingElementValidationError) -> str:
         path = PathHolder(self._root, [*error.path])
@@ -129,17 +136,18 @@ class Formatter(AbstractFormatter):
 
     def format_extra_key_error(self, error: ExtraKeyValidationError) -> str:
         formatted_path = self._at_path(error.path)
-        return f"Value{formatted_path} contains extra key {error.extra_key!r}"
+        return f"Value{formatted_path} contains extra key {safe_repr(error.extra_key)}"
 
     def format_schema_missmatch_error(self, error: SchemaMismatchValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
-                f"must match any of {error.expected_schemas!r}, but {error.actual_value!r} given")
+                f"must match any of {safe_repr(error.expected_schemas)}, "
+                f"but {safe_repr(error.actual_value)} given")
 
     def format_invalid_uuid_version_error(self, error: InvalidUUIDVersionValidationError) -> str:
         actual_type = self._get_type(error.actual_value)
         formatted_path = self._at_path(error.path)
         return (f"Value {actual_type}{formatted_path} "
                 f"must be a UUID version {error.expected_version!r}, "
-                f"but {error.actual_value!r} version {error.actual_version!r} given")
+                f"but {safe_repr(error.actual_value)} version {error.actual_version!r} given")
-- 
2.43.0


From de4dafcf5e1249d5e5596848e7abffeefd2fd57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 13/34] fix: represent non-finite floats and huge integers as
 valid source

---
 d42/representation/_representor.py | 42 +++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index f9cd100..f6bf60a 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -1,8 +1,10 @@
+from math import isfinite
 from typing import Any, cast
 
 from niltype import Nil
 
 from d42.declaration import SchemaVisitor
+from d42.declaration._safe_repr import safe_repr
 from d42.declaration.types import (
     AnySchema,
     BoolSchema,
@@ -32,6 +34,14 @@ class Representor(SchemaVisitor[str]):
     def name(self) -> str:
         return self._name
 
+    def _repr(self, value: Any) -> str:
+        if isinstance(value, float) and not isfinite(value):
+            return f"float({repr(value)!r})"
+        try:
+            return repr(value)
+        except ValueError:  # exceeds the limit for integer string conversion
+            return hex(value) if isinstance(value, int) else safe_repr(value)
+
     def visit(self, schema: GenericSchema, *, indent: int = 0, **kwargs: Any) -> str:
         if represent_method := getattr(schema, "__d42_represent__", None):
             return cast(str, represent_method(self, indent=indent, **kwargs))
@@ -51,13 +61,13 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.int"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._repr(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({self._repr(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({self._repr(schema.props.max)})"
 
         return r
 
@@ -65,13 +75,13 @@ class Representor(SchemaVisitor[str]):
         r = f"{self._name}.float"
 
         if schema.props.value is not Nil:
-            r += f"({schema.props.value!r})"
+            r += f"({self._repr(schema.props.value)})"
 
         if schema.props.min is not Nil:
-            r += f".min({schema.props.min!r})"
+            r += f".min({self._repr(schema.props.min)})"
 
         if schema.props.max is not Nil:
-            r += f".max({schema.props.max!r})"
+            r += f".max({self._repr(schema.props.max)})"
 
         if schema.props.precision is not Nil:
             r += f".precision({schema.props.precision!r})"
@@ -94,13 +104,13 @@ class Representor(SchemaVisitor[str]):
             r += f".regex({schema.props.pattern!r})"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({self._repr(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += f".len({self._repr(schema.props.min_len)}, {self._repr(schema.props.max_len)})"
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({self._repr(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {self._repr(schema.props.max_len)})"
 
         return r
 
@@ -124,13 +134,13 @@ class Representor(SchemaVisitor[str]):
             r += "\n" + " " * indent + "])"
 
         if schema.props.len is not Nil:
-            r += f".len({schema.props.len!r})"
+            r += f".len({self._repr(schema.props.len)})"
         elif (schema.props.min_len is not Nil) and (schema.props.max_len is not Nil):
-            r += f".len({schema.props.min_len!r}, {schema.props.max_len!r})"
+            r += f".len({self._repr(schema.props.min_len)}, {self._repr(schema.props.max_len)})"
         elif schema.props.min_len is not Nil:
-            r += f".len({schema.props.min_len!r}, ...)"
+            r += f".len({self._repr(schema.props.min_len)}, ...)"
         elif schema.props.max_len is not Nil:
-            r += f".len(..., {schema.props.max_len!r})"
+            r += f".len(..., {self._repr(schema.props.max_len)})"
 
         return r
 
@@ -150,7 +160,9 @@ class Representor(SchemaVisitor[str]):
             if is_ellipsis(key):
                 key_repr = val_repr = "..."
             else:
-                key_repr = f"optional({key!r})" if is_optional else repr(key)
+                key_repr = self._repr(key)
+                if is_optional:
+                    key_repr = f"optional({key_repr})"
                 val_repr = val.__accept__(self, indent=indent + self._indent, **kwargs)
             pairs.append("{indent}{key}: {val}".format(
                 indent=" " * (indent + self._indent),
-- 
2.43.0


From ef83ec214006bf72932f1cbabd0751b7aec3c3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:36 +0000
Subject: [PATCH 14/34] fix: reject a fixed uuid4 value of another UUID version

---
 d42/declaration/types/_uuid4_schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/d42/declaration/types/_uuid4_schema.py b/d42/declaration/types/_uuid4_schema.py
index c0a30a0..cb458cc 100644
--- a/d42/declaration/types/_uuid4_schema.py
+++ b/d42/declaration/types/_uuid4_schema.py
@@ -6,7 +6,7 @@ from niltype import Nil, Nilable
 from .._props import Props
 from .._schema_visitor import SchemaVisitor
 from .._schema_visitor import SchemaVisitorReturnType as ReturnType
-from ..errors import make_already_declared_error, make_invalid_type_error
+from ..errors import DeclarationError, make_already_declared_error, make_invalid_type_error
 from ._schema import Schema
 
 __all__ = ("UUID4Schema", "UUID4Props",)
@@ -29,4 +29,8 @@ class UUID4Schema(Schema[UUID4Props]):
         if self.props.value is not Nil:
             raise make_already_declared_error(self)
 
+        if value.version != 4:
+            message = f"`{self!r}` value must be a UUID version 4, {value!r} given"
+            raise DeclarationError(message)
+
         return self.__class__(self.props.update(value=value))
-- 
2.43.0


From 9131b6a77eda6b348c52018d5ecd58240f29251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 15/34] fix: reject regex() after a declared maximum length

---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 637cb17..2cf70f6 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -179,7 +179,7 @@ class StrSchema(Schema[StrProps]):
 
         if (self.props.pattern is not Nil) or (self.props.alphabet is not Nil) or \
            (self.props.len is not Nil) or (self.props.min_len is not Nil) or \
-           (self.props.len is not Nil) or (self.props.substr is not Nil):
+           (self.props.max_len is not Nil) or (self.props.substr is not Nil):
             raise make_already_declared_error(self)
 
         try:
-- 
2.43.0


From 67e5214eeda0d91ba18b8666373cb2d3818aad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 16/34] fix: reject patterns that overflow the regex compiler

---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 2cf70f6..990fd4e 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -184,7 +184,7 @@ class StrSchema(Schema[StrProps]):
 
         try:
             re.compile(pattern)
-        except re.error as e:
+        except (re.error, OverflowError, RecursionError) as e:
             message = f"Invalid pattern ({e})"
             raise DeclarationError(message) from None
 
-- 
2.43.0


From 2906650f37b7555f8a84cb2f3dbe023c8db57202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 17/34] fix: do not share the list of elements with the caller

---
 d42/declaration/types/_list_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_list_schema.py b/d42/declaration/types/_list_schema.py
index 0a98931..b0494ee 100644
--- a/d42/declaration/types/_list_schema.py
+++ b/d42/declaration/types/_list_schema.py
@@ -84,7 +84,7 @@ class ListSchema(Schema[ListProps]):
            is_ellipsis(elements_or_type[0]) and is_ellipsis(elements_or_type[-1]):
             raise DeclarationError("`...` must be first or last element")
 
-        return self.__class__(self.props.update(elements=elements_or_type))
+        return self.__class__(self.props.update(elements=[*elements_or_type]))
 
     def __declare_len(self, props: ListProps, length: Any) -> ListProps:
         if not isinstance(length, int):
-- 
2.43.0


From d038f83326181b7e78a4488d9b0b84a19b07b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:53 +0000
Subject: [PATCH 18/34] fix: refuse to convert dicts with ... or optional keys
 to a schema

---
 d42/utils/_from_native.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/d42/utils/_from_native.py b/d42/utils/_from_native.py
index b281e5f..c11b371 100644
--- a/d42/utils/_from_native.py
+++ b/d42/utils/_from_native.py
@@ -2,6 +2,7 @@ from datetime import date, datetime
 from typing import Any
 from uuid import UUID
 
+from d42.declaration._is_ellipsis import is_ellipsis
 from d42.declaration.types import (
     BoolSchema,
     BytesSchema,
@@ -15,6 +16,7 @@ from d42.declaration.types import (
     NoneSchema,
     StrSchema,
     UUID4Schema,
+    optional,
 )
 
 __all__ = ("from_native",)
@@ -34,6 +36,8 @@ def from_native(value: Any) -> GenericSchema:
     elif isinstance(value, list):
         return ListSchema()([from_native(x) for x in value])
     elif isinstance(value, dict):
+        if any(is_ellipsis(key) or isinstance(key, optional) for key in value):
+            raise ValueError(value)
         return DictSchema()({key: from_native(val) for key, val in value.items()})
     elif isinstance(value, bytes):
         return BytesSchema()(value)
-- 
2.43.0


From 2993ef978fb2176f33325d8e37a605e7a40d3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:57 +0000
Subject: [PATCH 19/34] fix: compare declared properties structurally

---
 d42/declaration/_props.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/d42/declaration/_props.py b/d42/declaration/_props.py
index 8a3261a..3d71239 100644
--- a/d42/declaration/_props.py
+++ b/d42/declaration/_props.py
@@ -7,6 +7,22 @@ __all__ = ("Props", "PropsType",)
 PropsType = TypeVar("PropsType", bound="Props")
 
 
+def _is_equal(left: Any, right: Any) -> bool:
+    from .types._schema import Schema
+
+    # a schema is never equal to a non-schema here, even if the latter is valid against it
+    if isinstance(left, Schema) != isinstance(right, Schema):
+        return False
+    for container in (list, tuple):
+        if isinstance(left, container) and isinstance(right, container):
+            return len(left) == len(right) and all(map(_is_equal, left, right))
+    if isinstance(left, dict) and isinstance(right, dict):
+        return left.keys() == right.keys() and all(_is_equal(left[k], right[k]) for k in left)
+    if isinstance(left, float) and isinstance(right, float) and (left != left):
+        return right != right
+    return bool(left == right)
+
+
 class Props:
     def __init__(self, registry: Nilable[Mapping[str, Any]] = Nil) -> None:
         self._registry = registry if (registry is not Nil) else {}
@@ -34,12 +50,12 @@ class Props:
 
         for key, val in self._registry.items():
             other_val = other.get(key)
-            if val != other_val:
+            if not _is_equal(val, other_val):
                 return False
 
         for key, other_val in other._registry.items():
             val = self.get(key)
-            if other_val != val:
+            if not _is_equal(other_val, val):
                 return False
 
         return True
-- 
2.43.0


From 1ecde2a43366e618275ec77428eb9e6aaac4c293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 20/34] fix: do not substitute any() into a schema without
 alternatives

---
 d42/substitution/_substitutor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 1851d9b..799d5c6 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -205,6 +205,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     types.append(substituted)
+        if len(types) == 0:
+            raise SubstitutionError(f"Can't substitute {safe_repr(value)} into any alternative")
         return schema.__class__(schema.props.update(types=tuple(types)))
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
-- 
2.43.0


From c936a2fc65d2567c17475e782976cffa021bf2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:38 +0000
Subject: [PATCH 21/34] fix: fail with SubstitutionError when no window of a
 list can be substituted

---
 d42/substitution/_substitutor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 799d5c6..630a77a 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -145,6 +145,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                     pass
                 else:
                     return schema.__class__(schema.props.update(elements=substituted))
+            raise SubstitutionError(f"Can't substitute {safe_repr(value)} into elements")
 
         # head
         if (len(elements) >= 2) and is_ellipsis(elements[-1]):
-- 
2.43.0


From 32677187bb7fe027ebb444eccf0842817c368f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 22/34] fix: reject ... placeholders that make a substituted
 list malformed

---
 d42/substitution/_substitutor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 630a77a..316448e 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -114,6 +114,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
 
         if len(value) > 0 and all(is_ellipsis(x) for x in value):
             raise SubstitutionError("Can't substitute all ...")
+        if any(is_ellipsis(x) for x in value[1:-1]):
+            raise SubstitutionError("`...` must be first or last element")
 
         if (schema.props.elements is Nil) and (schema.props.type is Nil):
             elements = []
-- 
2.43.0


From f5f3cc789f15781218b4de9916e4652053fb9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:47 +0000
Subject: [PATCH 23/34] fix: substitute ... placeholders of untyped dicts with
 any

---
 d42/substitution/_substitutor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 316448e..0d18c40 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -172,7 +172,12 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         keys: Dict[Any, Any] = {}
         if schema.props.keys is Nil or (len(schema.props.keys) == 1 and ... in schema.props.keys):
             for key, val in value.items():
-                keys[key] = (... if is_ellipsis(val) else self._from_native(val), False)
+                if is_ellipsis(key):
+                    if not is_ellipsis(val):
+                        raise SubstitutionError("Can't substitute ...")
+                    keys[key] = (val, False)
+                else:
+                    keys[key] = (AnySchema() if is_ellipsis(val) else self._from_native(val), False)
             if (schema.props.keys is not Nil) and (... in schema.props.keys):
                 keys[...] = (..., False)
         else:
-- 
2.43.0


From 23329956bd47c759943da9c09eb63d3794183191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 24/34] fix: keep the declared float value on substitution

---
 d42/substitution/_substitutor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 0d18c40..f6530ff 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -78,6 +78,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         result = schema.__accept__(self._validator, value=value)
         if result.has_errors():
             raise make_substitution_error(result, self._formatter)
+        if schema.props.value is not Nil:  # close values are not interchangeable
+            return schema.__class__(schema.props)
         return schema.__class__(schema.props.update(value=value))
 
     def visit_str(self, schema: StrSchema, *, value: Any = Nil, **kwargs: Any) -> StrSchema:
-- 
2.43.0


From c716c575345473d015b9707d845f3ae295e5fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 25/34] fix: substitute a conforming value into the part of the
 schema that accepts it

---
 d42/substitution/_substitutor.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index f6530ff..1d76ed3 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -22,7 +22,7 @@ from d42.declaration.types import (
     UUID4Schema,
 )
 from d42.utils import from_native, is_ellipsis
-from d42.validation import Formatter, Validator
+from d42.validation import Formatter, Validator, validate
 
 from ._validator import SubstitutorValidator
 from .errors import SubstitutionError, make_substitution_error
@@ -50,6 +50,9 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         except ValueError:
             raise SubstitutionError(f"Can't convert {safe_repr(value)} to schema")
 
+    def _is_accepted(self, schema: GenericSchema, value: Any) -> bool:
+        return not validate(schema, value).has_errors()
+
     def visit(self, schema: GenericSchema, *, value: Any = Nil, **kwargs: Any) -> GenericSchema:
         if substitute_method := getattr(schema, "__d42_substitute__", None):
             return cast(GenericSchema, substitute_method(self, value=value, **kwargs))
@@ -142,13 +145,20 @@ class Substitutor(SchemaVisitor[GenericSchema]):
 
         # body
         if (len(elements) > 2) and is_ellipsis(elements[0]) and is_ellipsis(elements[-1]):
+            candidates = []
             for index, val in enumerate(value):
                 try:
                     substituted = self._substitute_elements(value, elements[1:-1], index, **kwargs)
                 except SubstitutionError:
                     pass
                 else:
-                    return schema.__class__(schema.props.update(elements=substituted))
+                    candidate = schema.__class__(schema.props.update(elements=substituted))
+                    if self._is_accepted(candidate, value):
+                        return candidate
+                    candidates.append(candidate)
+            # value that conforms to the schema must not be rejected by the result
+            if (len(candidates) > 0) and not self._is_accepted(schema, value):
+                return candidates[0]
             raise SubstitutionError(f"Can't substitute {safe_repr(value)} into elements")
 
         # head
@@ -179,7 +189,8 @@ class Substitutor(SchemaVisitor[GenericSchema]):
                         raise SubstitutionError("Can't substitute ...")
                     keys[key] = (val, False)
                 else:
-                    keys[key] = (AnySchema() if is_ellipsis(val) else self._from_native(val), False)
+                    val_schema = AnySchema() if is_ellipsis(val) else self._from_native(val)
+                    keys[key] = (val_schema, False)
             if (schema.props.keys is not Nil) and (... in schema.props.keys):
                 keys[...] = (..., False)
         else:
@@ -210,14 +221,18 @@ class Substitutor(SchemaVisitor[GenericSchema]):
         else:
             for sch_type in schema.props.types:
                 try:
-                    substituted = sch_type.__accept__(self, value=value, **kwargs)
+                    type_ = sch_type.__accept__(self, value=value, **kwargs)
                 except SubstitutionError:
                     pass
                 else:
-                    types.append(substituted)
+                    types.append(type_)
         if len(types) == 0:
             raise SubstitutionError(f"Can't substitute {safe_repr(value)} into any alternative")
-        return schema.__class__(schema.props.update(types=tuple(types)))
+        substituted = schema.__class__(schema.props.update(types=tuple(types)))
+        # value that conforms to the schema must not be rejected by the result
+        if self._is_accepted(schema, value) and not self._is_accepted(substituted, value):
+            raise SubstitutionError(f"Can't substitute {safe_repr(value)} into its alternative")
+        return substituted
 
     def visit_bytes(self, schema: BytesSchema, *, value: Any = Nil, **kwargs: Any) -> BytesSchema:
         result = schema.__accept__(self._validator, value=value)
-- 
2.43.0


From 4744a245131f1e06a6b6e991682546ce54412bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 26/34] fix: splice migrated imports exactly, keeping other
 statements on their lines

---
 d42/migration/migrate_v1_to_v2.py | 34 ++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 65560f5..27cbcfc 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -2,7 +2,8 @@
 import ast
 import os
 from collections import defaultdict
-from typing import Dict, Tuple, Union
+from io import StringIO
+from typing import Dict, List, Tuple, Union, cast
 
 __all__ = ("migrate_v1_to_v2",)
 
@@ -135,8 +136,14 @@ mapping = {
 MappingType = Dict[str, Dict[str, Tuple[str, str]]]
 
 
+def _get_position(lines: List[str], lineno: int, col_offset: int) -> int:
+    line = lines[lineno - 1].encode()  # col_offset is an offset in bytes
+    return sum(map(len, lines[:lineno - 1])) + len(line[:col_offset].decode())
+
+
 def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
-    lines = source_code.splitlines(keepends=True)
+    # the lines as the parser counts them, unlike str.splitlines()
+    lines = StringIO(source_code, newline="").readlines()
     tree = ast.parse(source_code)
     replacements = []
 
@@ -160,28 +167,31 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
                     import_name = f"{name} as {asname}" if asname else name
                     unmapped_names.append(import_name)
 
+            if len(new_imports) == 0:
+                continue
+
             # Build replacement lines
             replacement_lines = []
             for new_module, names in new_imports.items():
                 names_str = ', '.join(names)
-                replacement_lines.append(f'from {new_module} import {names_str}\n')
+                replacement_lines.append(f'from {new_module} import {names_str}')
             if unmapped_names:
                 names_str = ', '.join(unmapped_names)
-                replacement_lines.append(f'from {module} import {names_str}\n')
+                replacement_lines.append(f'from {module} import {names_str}')
 
-            # Get line numbers
-            start_line = node.lineno - 1  # Convert to 0-based index
-            end_line = getattr(node, 'end_lineno', node.lineno) - 1
-            replacements.append((start_line, end_line, replacement_lines))
+            # Get positions
+            start = _get_position(lines, node.lineno, node.col_offset)
+            end = _get_position(lines, cast(int, node.end_lineno), cast(int, node.end_col_offset))
+            replacements.append((start, end, replacement_lines))
 
     if len(replacements) == 0:
         return None
 
-    # Apply replacements in reverse order to maintain line indices
-    for start_line, end_line, replacement_lines in reversed(replacements):
-        lines[start_line:end_line+1] = replacement_lines
+    # Apply replacements in reverse order to maintain positions
+    for start, end, replacement_lines in reversed(replacements):
+        source_code = source_code[:start] + '\n'.join(replacement_lines) + source_code[end:]
 
-    return ''.join(lines)
+    return source_code
 
 
 def process_file(filepath: str, mapping: MappingType) -> None:
-- 
2.43.0


From f92cb9f93153957a9d0c3e6939ac3b964a4e4a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:50 +0000
Subject: [PATCH 27/34] fix: keep the declared length in the repr of an empty
 list schema

---
 d42/representation/_representor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/d42/representation/_representor.py b/d42/representation/_representor.py
index f6bf60a..1e64e38 100644
--- a/d42/representation/_representor.py
+++ b/d42/representation/_representor.py
@@ -119,9 +119,9 @@ class Representor(SchemaVisitor[str]):
 
         if schema.props.type is not Nil:
             r += "({})".format(schema.props.type.__accept__(self, indent=indent, **kwargs))
+        elif (schema.props.elements is not Nil) and (len(schema.props.elements) == 0):
+            r += "([])"
         elif schema.props.elements is not Nil:
-            if len(schema.props.elements) == 0:
-                return r + "([])"
             elems = []
             for element in schema.props.elements:
                 if is_ellipsis(element):
-- 
2.43.0


From a3bbfb3f4f4fe3f227dbf22beeb7646844189689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 28/34] fix: compare each declared value once, equality was
 exponential in depth

---
 d42/declaration/_props.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d42/declaration/_props.py b/d42/declaration/_props.py
index 3d71239..4db2c02 100644
--- a/d42/declaration/_props.py
+++ b/d42/declaration/_props.py
@@ -54,6 +54,8 @@ class Props:
                 return False
 
         for key, other_val in other._registry.items():
+            if key in self._registry:  # already compared, twice per level is exponential in depth
+                continue
             val = self.get(key)
             if not _is_equal(other_val, val):
                 return False
-- 
2.43.0


From 11240b2b855147b17e65b02cfba9ec5ed9a6181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 29/34] fix: report a pattern that re cannot take (unhashable
 str subclass) as DeclarationError

---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index 990fd4e..df507bc 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -184,7 +184,7 @@ class StrSchema(Schema[StrProps]):
 
         try:
             re.compile(pattern)
-        except (re.error, OverflowError, RecursionError) as e:
+        except (re.error, OverflowError, RecursionError, TypeError) as e:
             message = f"Invalid pattern ({e})"
             raise DeclarationError(message) from None
 
-- 
2.43.0


From 21d9d07c2aa99df28e194ad4e905047d55426fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 30/34] fix: keep the last binding when an import statement
 binds a local name twice

---
 d42/migration/migrate_v1_to_v2.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/d42/migration/migrate_v1_to_v2.py b/d42/migration/migrate_v1_to_v2.py
index 27cbcfc..94f5e65 100644
--- a/d42/migration/migrate_v1_to_v2.py
+++ b/d42/migration/migrate_v1_to_v2.py
@@ -155,6 +155,8 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
 
             new_imports = defaultdict(list)
             unmapped_names = []
+            separate_lines = []
+            local_names = {alias.asname or alias.name for alias in node.names}
 
             for alias in node.names:
                 name = alias.name
@@ -163,9 +165,11 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
                     new_module, new_name = mapping[module][name]
                     import_name = f"{new_name} as {asname}" if asname else new_name
                     new_imports[new_module].append(import_name)
+                    separate_lines.append(f'from {new_module} import {import_name}')
                 else:
                     import_name = f"{name} as {asname}" if asname else name
                     unmapped_names.append(import_name)
+                    separate_lines.append(f'from {module} import {import_name}')
 
             if len(new_imports) == 0:
                 continue
@@ -178,6 +182,9 @@ def rewrite_imports(source_code: str, mapping: MappingType) -> Union[str, None]:
             if unmapped_names:
                 names_str = ', '.join(unmapped_names)
                 replacement_lines.append(f'from {module} import {names_str}')
+            if len(local_names) < len(node.names):
+                # a local name is bound more than once, so the order matters
+                replacement_lines = separate_lines
 
             # Get positions
             start = _get_position(lines, node.lineno, node.col_offset)
-- 
2.43.0


From 3c481ed1174fb47dd88a8a0b1f015d03f0768599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:34 +0000
Subject: [PATCH 31/34] fix: recognize only `...` itself as a placeholder in
 substituted lists

---
 d42/substitution/_substitutor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/substitution/_substitutor.py b/d42/substitution/_substitutor.py
index 1d76ed3..cd9fd4d 100644
--- a/d42/substitution/_substitutor.py
+++ b/d42/substitution/_substitutor.py
@@ -140,7 +140,7 @@ class Substitutor(SchemaVisitor[GenericSchema]):
             return schema.__class__(schema.props.update(elements=elements, type=Nil))
 
         elements = cast(List[GenericSchema], schema.props.elements)
-        if ... in value:
+        if any(is_ellipsis(x) for x in value):
             raise SubstitutionError("Can't substitute ...")
 
         # body
-- 
2.43.0


From 1a515a0c18068e0442b534c27803514767fafb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 32/34] fix: reject patterns with repeat counts too long to
 convert to int

---
 d42/declaration/types/_str_schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d42/declaration/types/_str_schema.py b/d42/declaration/types/_str_schema.py
index df507bc..55e245d 100644
--- a/d42/declaration/types/_str_schema.py
+++ b/d42/declaration/types/_str_schema.py
@@ -184,7 +184,7 @@ class StrSchema(Schema[StrProps]):
 
         try:
             re.compile(pattern)
-        except (re.error, OverflowError, RecursionError, TypeError) as e:
+        except (re.error, OverflowError, RecursionError, TypeError, ValueError) as e:
             message = f"Invalid pattern ({e})"
             raise DeclarationError(message) from None
 
-- 
2.43.0


From 9cf08b40e6c80c263fd00b2da51116bf28b87438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 33/34] fix: generate alphanumeric letters left over by a
 negated class

---
 d42/generation/_regex_generator.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/d42/generation/_regex_generator.py b/d42/generation/_regex_generator.py
index aa4a489..c169241 100644
--- a/d42/generation/_regex_generator.py
+++ b/d42/generation/_regex_generator.py
@@ -105,16 +105,21 @@ class RegexGenerator:
 
         letters = "".join(set(self._alphabet["letters"]) - set(exclude_letters))
         if len(letters) == 0:
-            return self._get_letter_except(exclude_letters)
+            categories = [val for opcode, val in value if opcode == CATEGORY]
+            return self._get_letter_except(exclude_letters, categories)
         drawn = self._random.random_choice(letters)
         # the order of a set of characters depends on hash randomization
         return sorted(letters)[letters.index(drawn)]
 
-    def _get_letter_except(self, exclude_letters: str) -> str:
+    def _get_letter_except(self, exclude_letters: str, categories: List[Any]) -> str:
         excluded = set(exclude_letters)
         for letter in map(chr, range(sys.maxunicode + 1)):
-            # categories cover non-ASCII alphanumeric characters too
-            if (letter not in excluded) and not letter.isalnum():
+            # categories cover non-ASCII characters too
+            if (CATEGORY_WORD in categories) and letter.isalnum():
+                continue
+            if (CATEGORY_DIGIT in categories) and letter.isdecimal():
+                continue
+            if letter not in excluded:
                 return letter
         raise ValueError("No letters left outside of the negated character class")
 
-- 
2.43.0


From 8b0374304a69440818425a8c082de01e04b18dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:30 +0000
Subject: [PATCH 34/34] fix: rollout does not extend the nested mappings that
 were passed in

---
 d42/utils/_rollout.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d42/utils/_rollout.py b/d42/utils/_rollout.py
index e441b74..651864a 100644
--- a/d42/utils/_rollout.py
+++ b/d42/utils/_rollout.py
@@ -29,7 +29,9 @@ def rollout(keys: KeysType, *, separator: str = ".") -> KeysType:
         parts = comp_key.split(separator)
         key = parts[0]
         if len(parts) == 1:
-            updated[optional(key) if is_optional else key] = val
+            # nested mappings may be extended below, so they have to be copied
+            real_val = {**val} if isinstance(val, dict) else val
+            updated[optional(key) if is_optional else key] = real_val
         else:
             if key not in updated:
                 updated[key] = {}
-- 
2.43.0

