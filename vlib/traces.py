"""What a process has that its code may change: taken before and after, and compared."""
import atexit
import builtins
import contextvars
import decimal
import faulthandler
import gc
import locale
import logging
import multiprocessing
import os
import random
import signal
import sys
import threading
import time
import tracemalloc
import types
import warnings

# modules whose functions are nobody's to replace
STD = ["os", "posix", "posixpath", "sys", "builtins", "hashlib", "_hashlib", "hmac", "random", "secrets", "time", "datetime", "json", "unicodedata", "struct",
       "binascii", "base64", "functools", "itertools", "operator", "math", "io", "codecs", "string", "re", "copy", "collections", "threading", "logging",
       "warnings", "locale", "decimal", "signal", "gc", "types", "typing", "uuid", "tempfile", "subprocess", "socket", "shutil", "pathlib", "traceback"]
OTHERS = ("ecdsa", "pyaes", "scrypt", "six")
HEAP = 1 << 9
MOVING = {("tempfile", "tempdir"), ("tempfile", "template")}
QUIET = ("cpython", "object.__getattr__", "object.__setattr__", "object.__delattr__")
EFFECTS = ("os.remove", "os.rename", "os.rmdir", "os.mkdir", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.chown", "os.utime", "os.setxattr",
           "os.removexattr", "os.lockf", "os.mkfifo", "os.system", "os.exec", "os.fork", "os.forkpty", "os.posix_spawn", "os.spawn", "os.startfile", "os.kill", "os.killpg", "os.putenv",
           "os.unsetenv", "os.chdir", "os.fchdir", "shutil.", "tempfile.", "socket.", "subprocess.", "syslog.", "urllib.", "http.", "smtplib.", "ftplib.", "poplib.",
           "imaplib.", "sqlite3.", "pty.", "signal.pthread_kill", "resource.", "fcntl.", "msvcrt.", "webbrowser.", "code.", "sys.addaudithook", "time.clock_settime")


def _ident(v):
    return "%s %s at %x" % (type(v).__name__, getattr(v, "__qualname__", ""), id(v))


def _callables(ns):
    return {k: (id(v), type(v)) for k, v in list(ns.items()) if callable(v) and isinstance(k, str)}


def _functions():
    res = {}
    for name, m in list(sys.modules.items()):
        if name in STD or name.split(".")[0] in OTHERS:
            if not isinstance(m, types.ModuleType):
                continue
            res[name] = _callables(vars(m))
            for k, v in list(vars(m).items()):
                if isinstance(v, type) and v is not type and v.__flags__ & HEAP and str(getattr(v, "__module__", "")).split(".")[0] in OTHERS + tuple(STD):
                    res[name + "." + k] = _callables(vars(v))
    return res


def _constants():
    """Plain values that belong to modules and to the curve."""
    res = {}
    for name, m in list(sys.modules.items()):
        if (name in STD or name.split(".")[0] in OTHERS) and isinstance(m, types.ModuleType):
            for k, v in list(vars(m).items()):
                if isinstance(v, (str, int, float, bytes, tuple, frozenset)) and not k.startswith("_") and (name, k) not in MOVING:
                    try:
                        res[name + "." + k] = "%x %r" % (hash(v), v if isinstance(v, (str, int, float, bytes)) else "")
                    except TypeError:
                        pass
    ecdsa = sys.modules.get("ecdsa")
    if ecdsa:
        c = ecdsa.SECP256k1
        g = c.generator
        res["the curve"] = repr([c.name, c.order, c.baselen, c.oid, c.openssl_name, c.curve.p(), c.curve.a(), c.curve.b(), g.x(), g.y(), g.order()])
    return res


def _stream(f):
    return [getattr(f, n, None) for n in ("encoding", "errors", "line_buffering", "write_through", "closed", "newlines")] + [type(f).__name__]


def _loggers():
    res = {"root": logging.getLogger()}
    res.update({n: v for n, v in list(logging.root.manager.loggerDict.items()) if isinstance(v, logging.Logger)})
    return {n: [v.level, [_ident(h) for h in v.handlers], [_ident(f) for f in v.filters], v.propagate, v.disabled] for n, v in res.items()}


def _fds():
    res = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            res[n] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return res


def _umask():
    u = os.umask(0o77)
    os.umask(u)
    return u


def _hashes():
    import hashlib
    return [sorted(hashlib.algorithms_available), sorted(hashlib.algorithms_guaranteed)]


def _signals():
    return {int(s): repr(signal.getsignal(s)) for s in signal.valid_signals()}


def snapshot():
    import resource
    import socket
    return {
        "environment variables": dict(os.environ), "working directory": os.getcwd(), "umask": _umask(), "locale": locale.setlocale(locale.LC_ALL),
        "state of the random module": repr(random.getstate()), "recursion limit": sys.getrecursionlimit(), "thread switch interval": sys.getswitchinterval(),
        "limit of integer digits": sys.get_int_max_str_digits(), "module search path": list(sys.path), "arguments of the program": list(sys.argv),
        "standard streams": [_ident(sys.stdin), _ident(sys.stdout), _ident(sys.stderr)], "standard streams at start": [_ident(sys.__stdout__), _ident(sys.__stderr__)],
        "hooks": [_ident(getattr(sys, n, None)) for n in ("excepthook", "displayhook", "unraisablehook", "breakpointhook")] + [_ident(threading.excepthook)],
        "import hooks": [_ident(h) for h in sys.meta_path + sys.path_hooks], "tracing": [_ident(sys.gettrace()), _ident(sys.getprofile())],
        "traceback limit": getattr(sys, "tracebacklimit", None), "bytecode writing": sys.dont_write_bytecode,
        "streams": [_stream(sys.stdin), _stream(sys.stdout), _stream(sys.stderr)], "constants of other modules": _constants(),
        "context variables": sorted([v.name, repr(x)[:100]] for v, x in contextvars.copy_context().items() if v.name != "decimal_context"), "time zone": [time.tzname, time.timezone, time.daylight],
        "fault handler": faulthandler.is_enabled(), "memory tracing": tracemalloc.is_tracing(), "start of processes": multiprocessing.get_start_method(allow_none=True),
        "functions for all threads": [_ident(getattr(threading, n, None)) for n in ("_trace_hook", "_profile_hook")],
        "built-in functions": _callables(vars(builtins)), "functions of other modules": _functions(),
        "hash algorithms": _hashes(), "decimal context": repr(decimal.getcontext()), "warning filters": repr(warnings.filters), "warning display": _ident(warnings.showwarning),
        "logging": [_loggers(), logging.root.manager.disable, logging.raiseExceptions, logging.getLoggerClass().__name__, _ident(logging.getLogRecordFactory())],
        "signal handlers": _signals(), "timers": [signal.getitimer(signal.ITIMER_REAL)[0] > 0, signal.getitimer(signal.ITIMER_VIRTUAL)[0] > 0],
        "garbage collection": [gc.isenabled(), gc.get_threshold(), gc.get_debug(), [_ident(c) for c in gc.callbacks]],
        "exit handlers": atexit._ncallbacks(), "default socket timeout": socket.getdefaulttimeout(), "thread stack size": threading.stack_size(),
        "limits": [resource.getrlimit(getattr(resource, n)) for n in ("RLIMIT_NOFILE", "RLIMIT_CORE", "RLIMIT_AS", "RLIMIT_CPU", "RLIMIT_STACK", "RLIMIT_FSIZE")],
        "user and group": [os.getuid(), os.geteuid(), os.getgid(), os.getegid()], "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "processors": sorted(os.sched_getaffinity(0)), "open files": _fds(), "threads": sorted(t.name for t in threading.enumerate()),
    }


def settle(before):
    """Gives threads that are ending the time to."""
    end = time.monotonic() + 2
    while len(threading.enumerate()) > len(before["threads"]) and time.monotonic() < end:
        time.sleep(0.02)


def differences(before, after):
    """[text] for what changed; what is new in a module or among the loggers is nobody's loss."""
    res = []
    for k, old in before.items():
        new = after[k]
        if k == "functions of other modules":
            for name, fns in old.items():
                now = new.get(name, {})
                res += ["%s: %s.%s" % (k, name, f) for f, v in fns.items() if now.get(f) != v]
        elif k == "logging":
            if old[1:] != new[1:] or any(new[0].get(n) != v for n, v in old[0].items()):
                res.append("logging: %s" % [(n, v, new[0].get(n)) for n, v in old[0].items() if new[0].get(n) != v][:2])
        elif old != new:
            if isinstance(old, dict):
                what = {n: (old.get(n), new.get(n)) for n in sorted(set(old) | set(new)) if old.get(n) != new.get(n)}
                res.append("%s: %s" % (k, str(what)[:300]))
            else:
                res.append("%s: %s became %s" % (k, str(old)[:120], str(new)[:120]))
    return res


class Effects:
    """Notes what is done to the system while active (by audit events)."""
    hooked, current = False, None

    def __enter__(self):
        self.seen = []
        if not Effects.hooked:
            Effects.hooked = True
            sys.addaudithook(Effects.hook)
        Effects.current = self
        return self

    def __exit__(self, *_):
        Effects.current = None

    @staticmethod
    def hook(event, args):
        me = Effects.current
        if me is None or len(me.seen) > 20:
            return
        if event == "open":
            path, mode, flags = args
            writes = (isinstance(mode, str) and set(mode) & set("wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
            if writes and path not in ("/dev/null", os.devnull) and not str(path).endswith(".pyc"):
                me.seen.append("a file opened for writing: %s" % str(path)[-80:])
        elif event.startswith(EFFECTS):
            if event == "os.mkdir" and "__pycache__" in str(args):
                return
            me.seen.append("%s %s" % (event, str(args)[:100]))
