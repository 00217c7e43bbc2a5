"""The world around the library: clocks that jump, and a record of everything the library does to it."""
import datetime
import gc
import locale
import os
import signal
import sys
import threading
import time

from vf import env

LIB = os.path.join(env.REPO, "wampproto") + os.sep
REAL, REAL_DATE = datetime.datetime, datetime.date
EPOCH = REAL(1970, 1, 1, tzinfo=datetime.timezone.utc)
READS = ("time", "time_ns", "monotonic", "monotonic_ns", "perf_counter", "perf_counter_ns", "process_time", "process_time_ns", "thread_time", "thread_time_ns")
DOES = (
    "open", "socket.", "subprocess.", "os.", "shutil.", "tempfile.", "urllib.", "ftplib.", "http.", "smtplib.", "sqlite3.", "_thread.start_", "time.sleep",
    "pty.", "signal.", "builtins.input", "syslog.", "fcntl.", "mmap.", "webbrowser.", "glob.", "pathlib.", "resource.", "sys.setrecursion",
)
NOT = ("os.urandom", "os.fspath")
BORN = {f: getattr(time, f) for f in (*READS, "gmtime", "localtime", "ctime", "strftime", "sleep", "clock_gettime", "clock_gettime_ns")}
active = None


def library_frame():
    """Is the library at work, and not importing or warning?"""
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if "importlib" in name or name.endswith(("warnings.py", "linecache.py")):
            return None
        if name.startswith(LIB):
            return f"{name[len(LIB):]}:{f.f_lineno}"
        f = f.f_back
    return None


def hook(event, args):
    w = active
    if w is None or not event.startswith(DOES) or event in NOT:
        return
    where = library_frame()
    if where is not None:
        w.events.append(f"{event} {str(args)[:80]} at {where}")


sys.addaudithook(hook)


class Terminal:
    def __init__(self, name, under):
        self.name, self.under = name, under

    def write(self, text):
        where = library_frame()
        if where is None:
            return self.under.write(text)
        if active is not None:
            active.events.append(f"{self.name}: {text[:80]!r} at {where}")
        return len(text)

    def __getattr__(self, name):
        return getattr(self.under, name)


class Environ:
    """os.environ, noticing when the library looks at it."""

    def __init__(self, under):
        self.__dict__["under"] = under

    def noticed(self, name):
        where = library_frame()
        if where is not None and active is not None:
            active.events.append(f"os.environ.{name} at {where}")

    def __getattr__(self, name):
        self.noticed(name)
        return getattr(self.under, name)

    def __getitem__(self, k):
        self.noticed("[]")
        return self.under[k]

    def __setitem__(self, k, v):
        self.noticed("[]=")
        self.under[k] = v

    def __delitem__(self, k):
        self.noticed("del")
        del self.under[k]

    def __contains__(self, k):
        self.noticed("in")
        return k in self.under

    def __iter__(self):
        self.noticed("iter")
        return iter(self.under)

    def __len__(self):
        return len(self.under)


def settings():
    """Process-wide state that belongs to the application."""
    import decimal
    import logging
    import warnings

    return {
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "locale": locale.setlocale(locale.LC_ALL), "directory": os.getcwd(),
        "environment": dict(os.environ.items()) if not isinstance(os.environ, Environ) else dict(os.environ.under), "garbage collection": (gc.isenabled(), gc.get_threshold()), "hooks": (sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE, signal.SIGCHLD)],
        "decimal precision": decimal.getcontext().prec, "threads": threading.active_count(), "umask": None, "path": list(sys.path), "tracing": (sys.gettrace() is None, sys.getprofile() is None),
        "logging": (logging.root.level, list(logging.root.handlers), logging.root.manager.disable), "warnings": list(warnings.filters), "int digits": sys.get_int_max_str_digits(),
    }


class World:
    """While entered, each look at a clock moves it by the next of `jumps` (seconds; monotonic clocks only forward)."""

    def __init__(self, epoch, jumps):
        self.wall, self.mono, self.jumps, self.n = float(epoch), 1000.0, jumps or [0], 0
        self.events, self.reads = [], 0

    def step(self):
        j = self.jumps[self.n % len(self.jumps)]
        self.n += 1
        self.wall = min(max(self.wall + j, 0.0), 7e9)
        self.mono += abs(j)
        if library_frame():
            self.reads += 1

    def read(self, name):
        self.step()
        v = self.wall if name.startswith("time") and "thread" not in name else self.mono
        return int(v * 1e9) if name.endswith("_ns") else v

    def utc(self):
        self.step()
        return EPOCH + datetime.timedelta(seconds=self.wall)

    def __enter__(self):
        global active
        world = self

        class Fake(REAL):
            @classmethod
            def now(cls, tz=None):
                u = world.utc()
                return u.astimezone(tz) if tz is not None else u.astimezone().replace(tzinfo=None)

            @classmethod
            def utcnow(cls):
                return world.utc().replace(tzinfo=None)

            @classmethod
            def today(cls):
                return cls.now()

        class FakeDate(REAL_DATE):
            @classmethod
            def today(cls):
                return world.utc().date()

        new = {n: (lambda n=n: world.read(n)) for n in READS}
        for n in ("gmtime", "localtime", "ctime"):
            new[n] = lambda s=None, f=BORN[n]: f(world.read("time") if s is None else s)
        new["strftime"] = lambda fmt, t=None: BORN["strftime"](fmt, new["localtime"]() if t is None else t)
        new["clock_gettime"] = lambda c: world.read("time" if c == 0 else "monotonic")
        new["clock_gettime_ns"] = lambda c: world.read("time_ns" if c == 0 else "monotonic_ns")

        def sleep(s):
            where = library_frame()
            if where is not None:
                return world.events.append(f"time.sleep({s!r}) at {where}")
            return BORN["sleep"](s)

        new["sleep"] = sleep
        self.undo = []

        def put(obj, name, value):
            self.undo.append((obj, name, getattr(obj, name)))
            setattr(obj, name, value)

        swap = {id(BORN[n]): f for n, f in new.items()} | {id(REAL): Fake, id(REAL_DATE): FakeDate}
        for n, f in new.items():
            put(time, n, f)
        put(datetime, "datetime", Fake)
        put(datetime, "date", FakeDate)
        for name, mod in list(sys.modules.items()):  # what the library imported by name
            if name.split(".")[0] == "wampproto" and mod is not None:
                for k, v in list(vars(mod).items()):
                    if id(v) in swap:
                        put(mod, k, swap[id(v)])
        self.before = settings()
        put(sys, "stdout", Terminal("stdout", sys.stdout))
        put(sys, "stderr", Terminal("stderr", sys.stderr))
        put(os, "environ", Environ(os.environ))
        active = self
        return self

    def __exit__(self, *_):
        global active
        active = None
        for obj, name, value in reversed(self.undo):
            setattr(obj, name, value)
        after = settings()
        self.changed = [k for k in self.before if self.before[k] != after[k]]
