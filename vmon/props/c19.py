"""v1-to-v2 migration rewrites imports and nothing else."""
import ast
import contextlib
import importlib
import io
import os
import subprocess
import sys
import tempfile
import tokenize

import d42.migration.migrate_v1_to_v2 as mig

from .. import spec as sp
from ..v1_names import V1

CASES = {"quick": 48000, "thorough": 1500000}
EVALUATIONS = "modules_checked"
MIN = {"modules_checked": 20000, "rewritten": 12000, "nothing_to_do": 3000, "imports_replaced": 25000,
       "statements_preserved": 100000, "comments_preserved": 15000, "shared_line": 4000, "bound_twice": 1000,
       "targets": 93, "files_migrated": 60, "fresh_interpreters": 8}
RULE = ("one evaluation = one assembled module given to rewrite_imports: the result must parse, its "
        "top-level statements must be the original ones in order (same AST and same source text) "
        "with each from-import of a mapped name replaced by imports that bind the same local names "
        "to the v2 counterparts and leave unmapped names with their module, and comments outside "
        "replaced lines must survive; all mapping targets are imported (in fresh interpreters too) "
        "and compared with a frozen list; whole directories are migrated in scratch folders; "
        "distinct_nontrivial counts distinct modules with a mapped import")
ASSUMPTIONS = ["comments on the physical lines of a replaced import are not followed"]

EXTRA_NAMES = ["Other", "make_it", "SchemaX", "_private", "errors", "types", "Schema2", "schema_",
               "Optional", "fake_", "validate_", "x"]
FOREIGN = ["os", "typing", "d42", "d42.utils", "district", "district42_exp_types", "my.district42",
           "district42.nothing", "district42.types.extra", "valera_", "blahblah.x", "revolt.substitutor",
           "tests.schemas", "a.b.c", "valera.formatter", "District42"]
LOCALS = ["s", "sch", "x", "y1", "_", "schema", "opt", "имя", "é", "Any", "d42", "__", "__s", "_s", "__all__",
          "__name__", "match", "type", "case", "print", "self", "schema_v1", "S", "x" * 90, "as_", "district42",
          "import_", "None_", "valera", "optional", "fake", "d42_schema"]


def mapped_pool():
    return [(mod, name) for mod, names in V1.items() for name in names]


POOL = mapped_pool()


# ---------------------------------------------------------------- assembling modules

def import_text(rng, mod, names, stats):
    """One from-import statement in one of its written forms."""
    items = [n if a is None else "%s%sas%s%s" % (n, rng.pick([" ", "  ", "\t"]), " ", a)
             for n, a in names]
    form = rng.weighted([(4, "plain"), (2, "paren"), (2, "multi"), (1, "backslash"), (1, "comma"),
                         (1, "tight"), (1, "spaced"), (1, "commented")])
    stats.add(form)
    if form == "plain":
        return "from %s import %s" % (mod, ", ".join(items))
    if form == "paren":
        return "from %s import (%s%s)" % (mod, ", ".join(items), rng.pick(["", ","]))
    if form == "multi":
        return "from %s import (\n    %s%s\n)" % (mod, ",\n    ".join(items), rng.pick(["", ","]))
    if form == "backslash":
        return "from %s \\\n  import %s" % (mod, ", \\\n    ".join(items))
    if form == "comma":
        return "from %s import %s" % (mod, ",".join(items))
    if form == "tight":
        return "from %s import(%s)" % (mod, ",".join(items))
    if form == "spaced":
        return "from   %s\timport   %s" % (mod, "  ,  ".join(items))
    return "from %s import (  # first\n    %s,  # names\n    # last\n)" % (
        mod, ",  # then\n    ".join(items))


def names_for(rng, mod, kind):
    """[(name, asname)], mostly with distinct local names."""
    known = list(V1.get(mod, {}))
    out, used = [], set()
    twice = rng.chance(.1)
    for _ in range(rng.pick([1, 1, 1, 2, 3, 5, 9])):
        mine = known and (kind == "mapped" or (kind == "mixed" and rng.chance(.6)))
        name = rng.pick(known) if mine else rng.pick(EXTRA_NAMES)
        if name in known and not mine:
            continue
        alias = rng.pick(LOCALS + [name, name + "_v1"]) if rng.chance(.35) else None
        local = alias or name
        if local in used and not twice:
            continue
        if twice and used and rng.chance(.5):
            alias = local = rng.pick(sorted(used))
        used.add(local)
        out.append((name, alias))
    return out or [(rng.pick(known), None)] if known else out or [("x", None)]


SIMPLE = ["x = 1", "pass", "print('hi')", "import os", "import district42", "import district42.types as t",
          "import valera, revolt", "y: int = 3", "'text'", '"from district42 import schema"',
          "del_ = [i for i in range(3)]", "assert True, 'é'", "z = 'é中😀'", "x += 1",
          "lam = lambda a, *b, c=1, **d: (a, b)", "f = f'{1 + 1:>{10}} from valera import {x!r}'",
          "raw = r'\\d'", "b = b'\\x00'", "n = 0xFF_FF", "t = ()", "(a, *rest) = [1, 2]",
          "x = '\\x1c'", "x = '\x1c\x1d\x1e\x85\u2028\u2029'", "x = 'a\x0cb'", "global_ = None",
          "schema = None", "nonlocal_ = district42.schema", "s = '''one'''", "...", "None",
          "w = (yield_ := 3)", "x = 1 if y else 2", "tail = '#not a comment'"]
BLOCKS = [
    "if True:\n    from district42 import schema\nelse:\n    pass",
    "try:\n    from district42 import schema, optional\nexcept ImportError:\n    from d42 import schema, optional",
    "def fn(a, b=1):\n    from valera import validate\n    return validate",
    "class A:\n    from district42.types import DictSchema as D\n    def m(self): return self.D",
    "@decor\n@other(1)\ndef g():\n    '''doc\n    from district42 import schema\n    '''\n    return None",
    "async def h():\n    async with x as y:\n        await y",
    "text = '''\nfrom district42 import schema\nfrom valera import validate\n'''",
    'doc = """\r\nfrom district42 import schema\n"""'.replace("\r", ""),
    "for i in range(3):\n    pass\nelse:\n    x = 2",
    "while False: pass",
    "with open('f') as f, open('g') as g:\n    from revolt import substitute",
    "data = {\n    'from': 'district42',   # comment inside\n    'import': [\n        1,\n    ],\n}",
    "x = 1 + \\\n    2",
    "if x: y = 1; z = 2",
    "match x:\n    case 1 if y:\n        pass\n    case {'a': [*_]}:\n        from blahblah import fake\n    case _:\n        pass",
    "def outer():\n\tdef inner():\n\t\tfrom district42 import schema\n\t\treturn schema\n\treturn inner",
    "if 1:\n  if 2:\n    x = '''\nfrom district42 import schema\n'''\n  y = 3",
    "class K(Base, metaclass=M):\n    '''schema'''\n    x: int\n\n    @property\n    def y(self) -> 'str':\n        return ''",
    "call(\n    a,  # from district42 import schema\n    *b,\n    **c,\n)",
    "try:\n    pass\nfinally:\n    pass",
]
COMMENTS = ["# comment", "# from district42 import schema", "#!/usr/bin/env python", "# -*- coding: utf-8 -*-",
            "# é中", "    # indented comment", "#", "# type: ignore", "# noqa: F401", "\x0c"]
FUTURES = ["from __future__ import annotations", "from __future__ import division, print_function"]


def statement(rng, stats):
    """-> (text, may share a physical line)"""
    r = rng.random()
    if r < .42:
        kind = rng.pick(["mapped", "mapped", "mapped", "mixed", "unmapped"])
        mod = rng.pick(list(V1))
        t = import_text(rng, mod, names_for(rng, mod, kind), stats)
        return t, True
    if r < .50:
        mod = rng.pick(FOREIGN)
        return import_text(rng, mod, names_for(rng, rng.pick(list(V1)), "mixed"), stats), True
    if r < .53:
        return "from %s import *" % rng.pick(list(V1) + FOREIGN), True
    if r < .57:
        mod = rng.pick(list(V1))
        return "from %s%s import %s" % (rng.pick([".", "..", "...", ". ", ".. "]),
                                        rng.pick(["", mod, mod, "errors", "types"]),
                                        rng.pick(list(V1[mod]))), True
    if r < .85:
        return rng.pick(SIMPLE), True
    return rng.pick(BLOCKS), False


def module(rng):
    stats = set()
    lines = []
    if rng.chance(.15):
        lines.append(rng.pick(["#!/usr/bin/env python3", "# -*- coding: utf-8 -*-", "", "\x0c"]))
    if rng.chance(.35):
        lines.append(rng.pick(["'''Docstring.'''", '"""Doc\n\nfrom district42 import schema\n"""',
                               "'doc'", "'''é\u2028ü'''  # after"]))
        if rng.chance(.2):
            lines[-1] += "; from district42 import schema"
    if rng.chance(.15):
        lines.append(rng.pick(FUTURES))
    n = rng.pick([0, 1, 2, 3, 5, 8, 12])
    i = 0
    while i < n:
        i += 1
        if rng.chance(.2):
            lines.append(rng.pick(COMMENTS))
        if rng.chance(.15):
            lines.append(rng.pick(["", "", "   ", "\n"]))
        text, shares = statement(rng, stats)
        if shares:
            while rng.chance(.3) and i < n + 3:
                i += 1
                other, ok = statement(rng, stats)
                if not ok:
                    break
                text += rng.pick(["; ", ";", " ;  ", "; \\\n"]) + other
                stats.add("shared_line")
            if rng.chance(.1):
                text += rng.pick([";", " ; "])
            if rng.chance(.15) and not text.endswith("\\"):
                text += rng.pick(["  # noqa", "# c", "  # é from valera import validate"])
        lines.append(text)
    if rng.chance(.15):
        lines.append(rng.pick(COMMENTS))
    source = "\n".join(lines)
    if rng.chance(.6):
        source += rng.pick(["\n", "\n", "\n\n\n", "\n   \n"])
    r = rng.random()
    if r < .08:
        source = source.replace("\n", "\r\n")
        stats.add("crlf")
    elif r < .1:
        source = source.replace("\n", "\r")
        stats.add("cr")
    elif r < .12:
        source = "".join(c if c != "\n" else rng.pick(["\n", "\r\n"]) for c in source)
        stats.add("mixed newlines")
    return source, stats


# ---------------------------------------------------------------- the oracle

def parse(text):
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ast.parse(text)
    except (SyntaxError, ValueError):
        return None


def is_mapped(node):
    return isinstance(node, ast.ImportFrom) and node.level == 0 and node.module in V1 and \
        any(a.name in V1[node.module] for a in node.names)


def wanted(node, ordered=False):
    """(module, name, local name) of every name a replaced import must bind; `ordered`: in reverse,
    so that the first mention of a local name is the one that lasts."""
    out = []
    for a in node.names:
        if a.name in V1[node.module]:
            mod, name = V1[node.module][a.name]
        else:
            mod, name = node.module, a.name
        out.append((mod, name, a.asname or a.name))
    return out[::-1] if ordered else sorted(out)


def bound(node):
    return [(node.module, a.name, a.asname or a.name) for a in node.names]


def norm_nl(t):
    return None if t is None else t.replace("\r\n", "\n").replace("\r", "\n")


def segment(text, node):
    """The source text of a statement (positions are in UTF-8 bytes; lines end at \\n, \\r, \\r\\n)."""
    lines = io.StringIO(text, newline="").readlines()
    first = node.decorator_list[0].lineno if getattr(node, "decorator_list", None) else None
    a, b = node.lineno, node.end_lineno
    if a == b and first is None:
        return norm_nl(lines[a - 1].encode()[node.col_offset:node.end_col_offset].decode())
    head = lines[a - 1].encode()[node.col_offset:].decode()
    tail = lines[b - 1].encode()[:node.end_col_offset].decode()
    body = head + "".join(lines[a:b - 1]) + tail
    if first is not None:
        body = "".join(lines[first - 1:a - 1]) + body
        if a == b:
            body = "".join(lines[first - 1:a - 1]) + \
                lines[a - 1].encode()[node.col_offset:node.end_col_offset].decode()
    return norm_nl(body)


def comments(text, skip):
    """Comments outside the physical lines in `skip`, in order; None if not tokenizable."""
    out = []
    try:
        for t in tokenize.generate_tokens(io.StringIO(norm_nl(text)).readline):
            if t.type == tokenize.COMMENT and t.start[0] not in skip:
                out.append(t.string.rstrip())
    except (tokenize.TokenError, SyntaxError, IndentationError):
        return None
    return out


def lines_of(nodes):
    return {i for n in nodes for i in range(n.lineno, n.end_lineno + 1)}


def check(m, source, result, w):
    """Is `result` an allowed outcome for `source`?"""
    tree = parse(source)
    todo = [n for n in tree.body if is_mapped(n)]
    if result is None:
        m.count("nothing_to_do")
        if todo:
            m.fail("reported nothing to do, but a mapped name is imported",
                   statement=segment(source, todo[0]), **w)
        return
    if type(result) is not str:
        m.fail("rewrite_imports returned %s" % type(result).__name__, **w)
    m.count("rewritten")
    w = dict(w, result=repr(result))
    out = parse(result)
    if out is None:
        m.fail("the rewritten module is not valid Python", **w)
    body = list(out.body)
    replaced = []
    for node in tree.body:
        if not is_mapped(node):
            m.count("statements_preserved")
            text = segment(source, node)
            if not body:
                m.fail("a statement was lost", statement=text, **w)
            got = body.pop(0)
            if ast.dump(got) != ast.dump(node):
                m.fail("another statement was changed or moved", statement=text,
                       became=segment(result, got), **w)
            if segment(result, got) != text:
                m.fail("the text of another statement was changed", statement=text,
                       became=segment(result, got), **w)
            continue
        m.count("imports_replaced")
        want = wanted(node)
        have = []
        while body and isinstance(body[0], ast.ImportFrom) and len(have) < len(want):
            if body[0].level:
                break
            replaced.append(body[0])
            have += bound(body.pop(0))
        if sorted(have) != want:
            m.fail("a mapped import was not replaced by its counterparts",
                   statement=segment(source, node), binds=sorted(have), must_bind=want, **w)
        last = {local: (mod, name) for mod, name, local in have}
        if len(last) < len(want):
            m.count("bound_twice")
            for mod, name, local in wanted(node, ordered=True):
                must = (mod, name)
                if local in last and last.pop(local) != must:
                    m.fail("a local name that is bound twice ends up as another object",
                           statement=segment(source, node), local=local, must_bind=must, **w)
    if body:
        m.fail("a statement was added", statement=segment(result, body[0]), **w)
    a = comments(source, lines_of(todo))
    if a is not None:
        b = comments(result, set())
        m.count("comments_preserved", len(a))
        if b is None:
            m.fail("the rewritten module cannot be tokenized", **w)
        it = iter(b)
        for c in a:
            if not any(x == c for x in it):
                m.fail("a comment was lost or moved", comment=c, **w)


def rewrite(m, source, w):
    return m.call("rewrite_imports", mig.rewrite_imports, source, mig.mapping, witness=w)


def case(m, rng, idx):
    if idx % 1500 == 3:
        return directory(m, rng)
    for _ in range(8):
        source, stats = module(rng)
        if parse(source) is not None:
            break
        m.count("not_valid_python")
    else:
        return
    one(m, source, stats)


def one(m, source, stats=()):
    for s in stats:
        m.count(s)
    w = dict(source=repr(source))
    m.count("modules_checked")
    result = rewrite(m, source, w)
    check(m, source, result, w)
    m.sample(source)
    if result is not None:
        if any(is_mapped(n) for n in parse(source).body):
            m.distinct(source)
        again = rewrite(m, result, dict(source=repr(result)))
        check(m, result, again, dict(source=repr(result)))
        if again is not None and ast.dump(parse(again)) != ast.dump(parse(result)):
            m.fail("rewriting the result again changes it", again=repr(again), **w)
    return result


# ---------------------------------------------------------------- whole directories

def tree_of(top):
    out = {}
    for root, _, files in os.walk(top):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, top)] = fh.read()
    return out


def directory(m, rng, cli=False):
    with tempfile.TemporaryDirectory(prefix="vmon-c19-") as top:
        files = {}
        for i in range(rng.pick([1, 3, 6])):
            name = rng.pick(["", "pkg/", "pkg/sub/", "a.b/", "é/"]) + "m%d" % i + \
                rng.pick([".py", ".py", ".py", ".txt", ".pyi", ".PY_", ".md"])
            while True:
                source, _ = module(rng)
                if parse(source) is not None:
                    break
            files[name] = source
        for d in ("pkg", "pkg/sub", "a.b", "é"):
            os.makedirs(os.path.join(top, d), exist_ok=True)
        if rng.chance(.3):
            files["broken.py"] = "from district42 import schema\ndef (:\n"
        for name, source in files.items():
            with open(os.path.join(top, name), "w", encoding="utf-8", newline="") as f:
                f.write(source)
        before = tree_of(top)
        if cli:
            env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
            env.update(PYTHONPATH=m.repo, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf8")
            p = subprocess.run([sys.executable, "-m", "d42", "v1-to-v2", top], env=env, cwd=top,
                               capture_output=True, timeout=120)
            m.count("cli_runs")
            if p.returncode != 0:
                m.fail("the v1-to-v2 command failed", files=files,
                       stderr=p.stderr.decode("utf8", "replace")[-800:])
        else:
            with contextlib.redirect_stdout(io.StringIO()):
                m.call("migrate_v1_to_v2", mig.migrate_v1_to_v2, top, witness=dict(files=files))
        after = tree_of(top)
        w = dict(files=files)
        if before.keys() != after.keys():
            m.fail("migration added or removed files", gone=list(before.keys() - after.keys()),
                   new=list(after.keys() - before.keys()), **w)
        for name, source in files.items():
            ww = dict(file=name, source=repr(source))
            if not name.endswith(".py") or name == "broken.py":
                if before[name] != after[name]:
                    m.fail("migration changed a file that is not a valid Python module",
                           after=after[name], **ww)
                continue
            m.count("files_migrated")
            text = after[name].decode("utf8")
            if parse(text) is None:
                m.fail("the migrated file is not valid Python", after=repr(text), **ww)
            if before[name] == after[name]:
                check(m, source, source, dict(ww, how="file left as it was"))
            else:
                check(m, source, text, ww)


# ---------------------------------------------------------------- directed

def d_mapping(m, rng):
    """Every target is importable, and is the reviewed counterpart."""
    for mod, names in mig.mapping.items():
        for name, (new_mod, new_name) in names.items():
            m.count("targets")
            w = dict(v1="%s.%s" % (mod, name), v2="%s.%s" % (new_mod, new_name))
            try:
                obj = getattr(importlib.import_module(new_mod), new_name)
            except (ImportError, AttributeError) as e:
                m.fail("a mapping target is not importable", error=repr(e), **w)
            ns = {}
            m.call("import", exec, "from %s import %s as it" % (new_mod, new_name), ns, witness=w)
            if ns["it"] is not obj:
                m.fail("a mapping target imports as something else", **w)
            if mod in V1 and name in V1[mod]:
                rmod, rname = V1[mod][name]
                ref = getattr(importlib.import_module(rmod), rname, None)
                if ref is not obj:
                    m.fail("a mapping target is not the v2 counterpart", expected="%s.%s"
                           % (rmod, rname), **w)
    for mod, names in V1.items():
        for name in names:
            if name not in mig.mapping.get(mod, {}):
                m.fail("a v1 name is no longer mapped", name="%s.%s" % (mod, name))


def d_fresh(m, rng):
    """Each target module can be the first thing an interpreter imports."""
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env.update(PYTHONPATH=m.repo, PYTHONDONTWRITEBYTECODE="1")
    by = {}
    for names in mig.mapping.values():
        for new_mod, new_name in names.values():
            by.setdefault(new_mod, set()).add(new_name)
    for mod, names in sorted(by.items()):
        code = "from %s import %s" % (mod, ", ".join(sorted(names)))
        p = subprocess.run([sys.executable, "-c", code], env=env, cwd="/", capture_output=True,
                           timeout=120)
        m.count("fresh_interpreters")
        if p.returncode != 0:
            m.fail("mapping targets are not importable in a fresh interpreter", code=code,
                   stderr=p.stderr.decode("utf8", "replace")[-600:])


def d_names(m, rng):
    """Every mapped name alone, aliased, with an unmapped neighbour; and all names of a module."""
    for mod, names in V1.items():
        for name in names:
            for t in ("from %s import %s", "from %s import %s as local", "from %s import %s, Other",
                      "from %s import Other as o, %s as p\n", "x = 1; from %s import %s; y = 2",
                      "from %s import (%s)\n\n\nz = 3\n", "from .%s import %s",
                      "def f():\n    from %s import %s\n", "from %s.deeper import %s"):
                one(m, t % (mod, name))
        everything = list(names)
        one(m, "from %s import %s\n" % (mod, ", ".join(everything)))
        one(m, "from %s import (\n    %s,\n)" % (mod, ",\n    ".join(everything)))
        one(m, "from %s import %s\n" % (mod, ", ".join("%s as v%d" % (n, i)
                                                       for i, n in enumerate(everything))))
    # what the rewritten imports bind
    for mod, names in V1.items():
        src = "\n".join("from %s import %s as v%d" % (mod, n, i) for i, n in enumerate(names))
        res = rewrite(m, src, dict(source=src))
        ns = {}
        m.call("executing the rewritten imports", exec, res, ns, witness=dict(result=res))
        for i, n in enumerate(names):
            rmod, rname = V1[mod][n]
            if ns["v%d" % i] is not getattr(importlib.import_module(rmod), rname):
                m.fail("a rewritten import binds another object", name="%s.%s" % (mod, n), result=res)


def d_layout(m, rng):
    """All pairs of layouts of two statements around an import."""
    imp = ["from district42 import schema", "from valera import (validate,\n  eq as e)",
           "from district42 import schema, Nope", "from district42 import \\\n schema as s",
           "from revolt.errors import SubstitutionError, make_substitution_error as é",
           "from district42 import schema, from_native, optional as o, represent, X as y"]
    around = ["", "x = 'é中😀'", "import os", "s = '''\nfrom district42 import schema\n'''",
              "s = '\u2028\x1c\x0c\x85'", "(a,\n b) = 1, 2", "'doc'", "from d42 import fake",
              "from district42 import Unknown", "from . import schema"]
    seps = ["\n", ";", "; ", ";\\\n", "\r\n", "\n\n# c\n", "  # c\n", "\n\x0c\n", "\r"]
    for i in imp:
        for a in around:
            for b in around:
                for s1 in seps:
                    for s2 in ("\n", "; "):
                        parts = [x for x in (a, i, b) if x]
                        t = parts[0]
                        for n, p in enumerate(parts[1:]):
                            t += (s1 if n == 0 else s2) + p
                        for end in ("", "\n", ";", " # end"):
                            if parse(t + end) is not None:
                                one(m, t + end)


def d_cli(m, rng):
    for _ in range(3):
        directory(m, rng, cli=True)
    for _ in range(50):
        directory(m, rng)


DIRECTED = [d_mapping, d_fresh, d_names, d_layout, d_cli]
