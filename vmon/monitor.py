"""The monitor a workload reports to: event counters, guarded calls, violations."""
import collections
import hashlib
import os
import sys
import traceback

from .spec import vrepr


class Violation(Exception):
    def __init__(self, message, witness):
        super().__init__(message)
        self.message = message
        self.witness = witness


class Skip(Exception):
    """The generated case is not usable (counted; never a verdict)."""


class Watchdog(BaseException):
    """A case used up its CPU budget (inconclusive)."""


def d42_frame(exc, repo):
    """The innermost frame of the traceback that belongs to the code under test, if any."""
    found = None
    for fs in traceback.extract_tb(exc.__traceback__):
        if fs.filename.startswith(repo + os.sep):
            found = "%s:%s (%s)" % (os.path.relpath(fs.filename, repo), fs.lineno, fs.name)
    return found


class Outcome:
    __slots__ = ("ok", "value", "exc")

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc


class Monitor:
    def __init__(self, pid, tier, seed, repo):
        self.pid, self.tier, self.seed, self.repo = pid, tier, seed, repo
        self.c = collections.Counter()
        self.distinct_set = set()
        self.samples = []
        self.idx = None

    # -- observation
    def count(self, name, n=1):
        self.c[name] += n

    def distinct(self, *parts):
        h = hashlib.blake2b("\x1f".join(map(str, parts)).encode("utf8", "backslashreplace"),
                            digest_size=8).digest()
        if h in self.distinct_set:
            return False
        self.distinct_set.add(h)
        return True

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:400])

    # -- verdicts
    def fail(self, message, /, **witness):
        raise Violation(message, {k: (v if isinstance(v, str) else vrepr(v, 2000))
                                  for k, v in witness.items()})

    def call(self, what, fn, /, *args, witness=None, **kwargs):
        """Call into d42; any exception is a violation of the property being monitored."""
        self.c["calls:" + what] += 1
        try:
            return fn(*args, **kwargs)
        except (Violation, Skip):
            raise
        except Exception as e:
            self.fail("%s raised %s: %s" % (what, type(e).__name__, vrepr(str(e), 300)),
                      **{**(witness or {}), "raised_at": str(d42_frame(e, self.repo))})

    def attempt(self, what, fn, /, *args, **kwargs):
        """Call into d42 and record the outcome, exception included."""
        self.c["calls:" + what] += 1
        try:
            return Outcome(True, fn(*args, **kwargs))
        except (Violation, Skip):
            raise
        except Exception as e:
            return Outcome(False, None, e)

    def build(self, s, env, shared=False):
        from .spec import build, build_shared
        if shared:
            self.c["builds_shared"] += 1
            build = build_shared
        self.c["builds"] += 1
        try:
            return build(s, env)
        except Exception as e:
            self.c["build_failed"] += 1
            raise Skip("build of %s: %r" % (vrepr(s), type(e)))


def fmt_exc(e):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]


class Lines:
    """Which lines of the code under test executed, through sys.monitoring (PEP 669)."""

    def __init__(self, repo):
        self.repo = os.path.join(repo, "d42") + os.sep
        self.hit = set()
        self.on = False

    def start(self):
        mon = getattr(sys, "monitoring", None)
        if mon is None:
            return
        try:
            mon.use_tool_id(mon.PROFILER_ID, "vmon")
        except ValueError:
            return

        def on_line(code, line):
            fn = code.co_filename
            if fn.startswith(self.repo):
                self.hit.add((fn[len(self.repo):], line))
            return mon.DISABLE
        mon.register_callback(mon.PROFILER_ID, mon.events.LINE, on_line)
        mon.set_events(mon.PROFILER_ID, mon.events.LINE)
        self.on = True
