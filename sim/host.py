"""The host process around the library: settings it may choose, and what it can observe."""
import atexit
import builtins
import codecs
import contextvars
import copyreg
import decimal
import faulthandler
import gc
import io
import locale
import logging
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import types
import warnings
import _thread

from . import boot, engine, locales

SIGS = [signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGHUP, signal.SIGUSR1, signal.SIGUSR2, signal.SIGCHLD,
        signal.SIGPIPE, signal.SIGPROF, signal.SIGVTALRM]


class Stream(io.TextIOBase):
    """a standard stream of the host; notices any use"""

    def __init__(self, name):
        self.nm = name
        self.used = 0
        self.text = ""

    def write(self, s):
        self.used += 1
        self.text += str(s)[:200]
        return len(s)

    def flush(self):
        pass

    def fileno(self):
        return {"stdin": 0, "stdout": 1}.get(self.nm, 2)

    def read(self, n=-1):
        self.used += 1
        return ""

    def readline(self, n=-1):
        self.used += 1
        return ""

    def writable(self):
        return True

    def readable(self):
        return True


def hook1(*a):
    pass


def hook2(*a):
    pass


LOCALES = []


def choose(r):
    """settings a host might have made"""
    return {
        "recursion": r.choice([0, 250, 700, 3000, 20000]),
        "digits": r.choice([-1, 0, 640, 5000, 100000]),
        "prec": r.choice([28, 3, 60]), "rounding": r.choice(["ROUND_HALF_EVEN", "ROUND_DOWN", "ROUND_CEILING"]),
        "decimal_traps": r.choice([False, True]),
        "locale": r.choice(["C", "C.UTF-8", "POSIX"] + LOCALES),
        "warnings": r.choice(["default", "ignore", "always", "once"]),
        "signals": r.choice([False, True]),
        "env": r.choice([False, True]),
        "cwd": r.choice(["", "/", "/usr"]),
        "random": r.getrandbits(30), "draws": r.randrange(5),
        "gc": r.choice([True, False]), "gct": r.choice([700, 50, 0]),
        "hooks": r.choice([False, True]),
        "switch": r.choice([0.005, 0.02]),
        "timeout": r.choice([0, 30]),
        "loglevel": r.choice([30, 10, 50]),
        "bytecode": r.choice([True, False]),
        "umask": r.choice([0o022, 0o077, 0o002, 0]),
        "timers": r.choice([False, False, True]),
    }


def apply(h):
    sys.stdout, sys.stderr, sys.stdin = Stream("stdout"), Stream("stderr"), Stream("stdin")
    sys.__stdout__, sys.__stderr__, sys.__stdin__ = sys.stdout, sys.stderr, sys.stdin
    fd = os.memfd_create("out")
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    if h["recursion"]:
        sys.setrecursionlimit(h["recursion"])
    if h["digits"] >= 0:
        sys.set_int_max_str_digits(h["digits"])
    c = decimal.getcontext()
    c.prec = h["prec"]
    c.rounding = h["rounding"]
    if h["decimal_traps"]:
        c.traps[decimal.Inexact] = True
    if locales.DIR:
        os.environ["LOCPATH"] = locales.DIR
    locale.setlocale(locale.LC_ALL, h["locale"])
    warnings.resetwarnings()
    warnings.simplefilter(h["warnings"])
    if h["signals"]:
        for s in SIGS:
            signal.signal(s, hook1)
    if h["env"]:
        os.environ["HOST_SETTING"] = "x"
        os.environ["TZ"] = "Asia/Kolkata"
    if h["cwd"]:
        os.chdir(h["cwd"])
    random.seed(h["random"])
    for _ in range(h["draws"]):
        random.random()
    gc.enable() if h["gc"] else gc.disable()
    gc.set_threshold(h["gct"], 10, 10)
    if h["hooks"]:
        sys.excepthook = hook1
        sys.unraisablehook = hook1
        sys.displayhook = hook1
        threading.excepthook = hook1
        threading.settrace(hook2)
    sys.setswitchinterval(h["switch"])
    if h["timeout"]:
        socket.setdefaulttimeout(h["timeout"])
    logging.getLogger().setLevel(h["loglevel"])
    sys.dont_write_bytecode = h["bytecode"]
    os.umask(h["umask"])
    if h["timers"]:
        for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF):
            signal.setitimer(t, 1e6)
    decimal.getcontext().clear_flags()


def fast():
    c = decimal.getcontext()
    s = random.getstate()[1]
    return (
        ("recursion limit", sys.getrecursionlimit()),
        ("int digit limit", sys.get_int_max_str_digits()),
        ("decimal context", (c.prec, c.rounding, c.Emin, c.Emax, c.capitals, c.clamp)),
        ("decimal flags and traps", repr(c) if c.flags else ""),
        ("warning filters", (id(warnings.filters), len(warnings.filters), warnings.filters[:1], id(warnings.showwarning))),
        ("signal handlers", [signal.getsignal(x) for x in SIGS]),
        ("timers", (signal.getitimer(0)[0] > 0, signal.getitimer(1)[0] > 0, signal.getitimer(2)[0] > 0)),
        ("environment", dict(os.environ._data)),
        ("working directory", os.getcwd()),
        ("random state", (s[0], s[1], s[-1])),
        ("gc", (gc.isenabled(), gc.get_threshold(), gc.get_debug(), len(gc.callbacks))),
        ("trace hooks", (sys.gettrace(), sys.getprofile(), threading.gettrace(), threading.getprofile())),
        ("standard streams", (id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.__stdout__), id(sys.__stderr__))),
        ("output", (sys.stdout.used if type(sys.stdout) is Stream else 1,
                    sys.stderr.used if type(sys.stderr) is Stream else 1,
                    sys.stdin.used if type(sys.stdin) is Stream else 1)),
        ("hooks", (id(sys.excepthook), id(sys.unraisablehook), id(sys.displayhook), id(threading.excepthook),
                   id(sys.breakpointhook))),
        ("switch interval", sys.getswitchinterval()),
        ("threads", _thread._count() if COUNT_THREADS else 0),
        ("locale", locale.setlocale(locale.LC_ALL)),
        ("socket timeout", socket.getdefaulttimeout()),
        ("module search path", (list(sys.path), len(sys.meta_path), len(sys.path_hooks), sys.dont_write_bytecode)),
        ("logging", (logging.root.level, len(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions)),
        ("builtins", (len(vars(builtins)), id(builtins.open), id(builtins.print), id(builtins.__import__))),
        ("exit handlers", atexit._ncallbacks()),
        ("time zone", (time.timezone, time.tzname, os.environ.get("TZ"))),
        ("context variables", len(contextvars.copy_context())),
        ("interpreter", (len(vars(sys)), getattr(sys, "tracebacklimit", None), id(codecs.lookup_error("strict")), sys.getdlopenflags(),
                         sys.get_asyncgen_hooks(), threading.stack_size())),
        ("umask", umask()),
        ("pickling", len(copyreg.dispatch_table)),
        ("diagnostics", (tracemalloc.is_tracing(), faulthandler.is_enabled(), sys.get_coroutine_origin_tracking_depth())),
    )


COUNT_THREADS = True
PER_THREAD = ("decimal context", "decimal flags and traps", "context variables", "trace hooks")


def umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def slow():
    with open("/proc/self/status") as f:
        um = [l for l in f if l.startswith(("Umask", "SigBlk", "SigIgn", "NoNewPrivs", "Uid", "Gid"))]
    return (
        ("umask and signal masks", um),
        ("open files", sorted(os.listdir("/proc/self/fd"), key=int)[:-1]),
        ("limits", [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_AS, resource.RLIMIT_STACK,
                                                    resource.RLIMIT_CORE, resource.RLIMIT_FSIZE)]),
        ("priority", (os.getpriority(os.PRIO_PROCESS, 0), os.sched_getscheduler(0), sorted(os.sched_getaffinity(0)))),
        ("file output", os.fstat(1).st_size),
        ("random state in full", hash(random.getstate())),
        ("decimal context in full", repr(decimal.getcontext())),
        ("warning filters in full", list(warnings.filters)),
        ("processes", children()),
        ("shared modules", shared()),
    )


SHARED = ("re", "math", "enum", "base64", "binascii", "typing", "functools", "itertools", "operator", "string", "json", "copy",
          "pickle", "copyreg", "collections", "builtins", "codecs", "struct", "datetime")


def shared():
    """names and functions of modules that the rest of the process uses as well; submodules may come by import"""
    out = []
    for n in SHARED:
        m = sys.modules.get(n)
        if m is not None:
            out.append((n, [(k, id(v) if callable(v) else 0) for k, v in sorted(vars(m).items()) if type(v) is not types.ModuleType]))
    return out


def children():
    try:
        with open("/proc/self/task/%d/children" % os.getpid()) as f:
            return f.read().split()
    except OSError:
        return []


def diff(a, b):
    for (n, x), (_, y) in zip(a, b):
        if x != y:
            if n == "shared modules":
                x, y = dict(x), dict(y)
                if all(x[m] == y.get(m) for m in x):
                    continue
                x, y = [[(m, *e) for m in x for e in p.get(m, ()) if e not in q.get(m, ())] for p, q in ((x, y), (y, x))]
                x, y = [[e[:2] for e in z] for z in (x, y)]
            return [n, repr(x)[:200], repr(y)[:200]]
    return None


# -- audit ---------------------------------------------------------------------------------

EVENTS = ("open", "os.", "socket.", "subprocess.", "_thread.start_new_thread", "shutil.", "tempfile.", "signal.", "fcntl.",
          "mmap.", "ctypes.", "syslog.", "builtins.input", "pty.", "resource.", "sqlite3.", "urllib.", "ftplib.", "http.",
          "smtplib.", "glob.", "sys.settrace", "sys.setprofile", "sys.addaudithook", "pathlib.", "marshal.dump")
IGNORE = ("os.listxattr", "os.getxattr")


class Audit:
    """outside actions taken while library code is on the stack"""

    def __init__(self):
        self.on = False
        self.seen = []

    def hook(self, event, args):
        if self.on and event.startswith(EVENTS) and event not in IGNORE:
            me = boot.real_ident()
            if self.only is not None and self.only() != me:
                return
            if library_call() and not engine.importing():
                self.seen.append([event, repr(args)[:120]])

    def install(self, only=None):
        self.only = only
        sys.addaudithook(self.hook)


def library_call():
    f = sys._getframe(1)
    while f is not None:
        fn = f.f_code.co_filename
        if fn.startswith(boot.PKG):
            return True
        if fn.startswith(boot.HERE) and "host.py" not in fn:
            return False
        f = f.f_back
    return False
