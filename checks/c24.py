"""C24: the library leaves the process, the system and the caller's objects as they were."""
import locale
import subprocess
import warnings
import decimal
import gc
import io
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import threading

import concurrent.futures.thread  # noqa: F401  (modules that register exit handlers are there from the start)
import multiprocessing.util  # noqa: F401
import socket
import uuid  # noqa: F401

from checks import c16, c19
from checks.common import *  # noqa: F401,F403
from vlib import traces
from vlib.core import ROOT

RULE = ("state: a case is a short history of operations of all kinds (as in C16: right and wrong passphrases, damaged codes, other networks, "
        "omitted salts and seeds) and a state of the process to begin in that is mostly not the usual one. In a copy of the process, everything that code can change "
        "about it (environment, directory, umask, locale, random state, limits, decimal context, warnings, logging, signals, hooks, exit handlers, "
        "garbage collection, streams, functions of other modules, descriptors, threads) is the same after as before, and no file, directory, socket or "
        "process was created, changed or removed meanwhile. text: the same with arbitrary text as in C19, up to 20000 characters. bundled: on a platform without OpenSSL's RIPEMD-160. visit: the same for a fresh interpreter importing the library, doing a few operations and ending; it "
        "ends with status 0, prints nothing and leaves no file. objects: keys and points, used as arguments and operands of many operations, still "
        "read the same in every form. Non-trivial: operations of two kinds, or one refused.")
ASSUMPTIONS = ["new modules, new loggers and caches inside the library are no change", "what a system call outside Python's audit events does is not seen unless it leaves a file or a descriptor"]

START = ["random", "recursion", "digits", "decimal", "warnings", "warnings", "logging", "umask", "directory", "locale", "gc", "switch", "environment", "signal", "hooks",
         "streams", "timeout", "path", "argv", "level"]


def begin(names, folder):
    """Puts the process in a state of its own."""
    for n in names:
        if n == "random":
            random.seed(24)
        elif n == "recursion":
            sys.setrecursionlimit(3131)
        elif n == "digits":
            sys.set_int_max_str_digits(7777)
        elif n == "decimal":
            decimal.getcontext().prec = 9
            decimal.getcontext().traps[decimal.Inexact] = True
        elif n == "warnings":
            warnings.simplefilter("ignore")
        elif n == "logging":
            logging.disable(logging.INFO)
            logging.getLogger().addHandler(logging.NullHandler())
        elif n == "level":
            logging.getLogger().setLevel(7)
            logging.getLogger("bip38").setLevel(13)
        elif n == "umask":
            os.umask(0o137)
        elif n == "directory":
            os.mkdir("elsewhere", 0o700)
            os.chdir("elsewhere")
        elif n == "locale":
            try:
                locale.setlocale(locale.LC_ALL, "C.UTF-8")
            except locale.Error:
                pass
        elif n == "gc":
            gc.disable()
            gc.set_threshold(313, 7, 5)
        elif n == "switch":
            sys.setswitchinterval(0.013)
        elif n == "environment":
            os.environ["C24_MARK"] = "x"
            os.environ.pop("HOME", None)
        elif n == "signal":
            signal.signal(signal.SIGUSR1, lambda *_: None)
            signal.signal(signal.SIGPIPE, signal.SIG_DFL)
            signal.signal(signal.SIGINT, signal.SIG_IGN)
        elif n == "hooks":
            sys.excepthook = lambda *_: None
            threading.excepthook = lambda *_: None
            sys.tracebacklimit = 17
        elif n == "streams":
            sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        elif n == "timeout":
            socket.setdefaulttimeout(31.0)
        elif n == "path":
            sys.path.append(folder)
        elif n == "argv":
            sys.argv[:] = ["program", "-O", "testnet"]


@st.composite
def state_cases(draw, lib):
    return {"pool": draw(c16.pools(lib)), "ops": draw(st.lists(c16.op_strategy(), min_size=1, max_size=6)),
            "start": draw(st.lists(st.sampled_from(START), max_size=8, unique=True))}


@st.composite
def wild_cases(draw, lib):
    """Operations on arbitrary text, as in C19."""
    ops = draw(st.lists(c19.text_cases(lib), min_size=1, max_size=4))
    for _ in range(draw(st.integers(0, 2))):
        # long texts of the alphabet are read to the end
        op, n = draw(st.sampled_from(c19.OPS)), draw(st.sampled_from([200, 1000, 3000, 5000, 20000]))
        t = draw(st.text(ref.B58[1:], min_size=4, max_size=9))
        ops.append({"op": op, "net": 0, "text": (t * (n // len(t) + 1))[:n], "pass": draw(st.sampled_from(["p", "x" * 5000, "e\u0301" * 3000]))})
    return {"wild": ops, "start": draw(st.lists(st.sampled_from(START), max_size=8, unique=True))}


def run_text(lib, case):
    """What it returns is judged by C19."""
    return c19.outcome(lib, case)[0].replace("library error", "refused")


def run_state(ctx, ops, start):
    lib = ctx.lib
    with tempfile.TemporaryDirectory(prefix="c24.") as folder:
        os.chdir(folder)
        try:
            os.environ["TMPDIR"] = folder
            os.environ["HOME"] = folder
            tempfile.tempdir = None
            world = c16.World(lib)
            begin(start, folder)
            before = traces.snapshot()
            with traces.Effects() as effects:
                done = [run_text(lib, r) if "text" in r else world.run(r)[0] for r in ops]
                traces.settle(before)
                after = traces.snapshot()
            return {"done": done, "changed": traces.differences(before, after), "effects": effects.seen}
        finally:
            os.chdir("/")


def check_state(case, ctx):
    ops = case["wild"] if "wild" in case else [c16.resolve(ctx.lib, case["pool"], o) for o in case["ops"]]
    got = c16.in_child(lambda: run_state(ctx, ops, case["start"]))
    what = ", ".join(r["op"] for r in ops)
    if "crash" in got:
        ctx.fail("%s: %s" % (what, got["crash"]))
    ctx.want(not got["changed"], what + ": the process is not as it was", None, got["changed"])
    ctx.want(not got["effects"], what + ": something was done to the system", None, got["effects"])
    for r, d in zip(ops, got["done"]):
        if "text" in r and len(r["text"]) > 4000:
            ctx.label("text of over 4000 characters")
        ctx.label(("text, " if "text" in r else "") + r["op"] + ": " + ("done" if d == "ok" else "refused"))
    for n in case["start"]:
        ctx.label("begins with another " + n)
    ctx.nontrivial(len({r["op"] for r in ops}) > 1 or "refused" in got["done"])


# ------------------------------------------------------------------ a process of its own
@st.composite
def visit_cases(draw, lib):
    return {"pool": draw(c16.pools(lib)), "ops": draw(st.lists(c16.op_strategy(), min_size=3, max_size=20))}


def files(folder):
    return sorted(os.path.relpath(os.path.join(d, f), folder) for d, ds, fs in os.walk(folder) for f in fs + ds)


def check_visit(case, ctx):
    ops = [c16.resolve(ctx.lib, case["pool"], o) for o in case["ops"]]
    folder = tempfile.mkdtemp(prefix="c24.")
    try:
        for d in ("cwd", "home", "tmp"):
            os.mkdir(os.path.join(folder, d))
        conf = os.path.join(folder, "conf")
        with open(conf, "w") as f:
            gens.json.dump({"mode": ctx.lib.mode if env.CURRENT[0] is not env.real_kdf else "real", "ops": ops}, f)
        home = os.path.join(folder, "home")
        e = dict(os.environ, PYTHONPATH=ROOT, PYTHONDONTWRITEBYTECODE="1", HOME=home, TMPDIR=os.path.join(folder, "tmp"), XDG_CACHE_HOME=os.path.join(home, ".cache"))
        before = files(folder)
        try:
            p = subprocess.run([sys.executable, "-m", "vlib.visit", conf], cwd=os.path.join(folder, "cwd"), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=c16.WAIT_S)
        except subprocess.TimeoutExpired:
            ctx.fail("a process that used the library does not end")
        out, err = p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
        if "RESULT " not in out:
            ctx.fail("a process that uses the library ended with %s: %s" % (p.returncode, short(err[-600:], 600)))
        noise, rest = out.split("RESULT ", 1)
        line, tail = rest.split("\n", 1)
        got = gens.json.loads(line)
        ctx.want(not got["imported"], "importing the library changed the process", None, got["imported"])
        ctx.want(not got["after"], "the process is not as it was before the library", None, got["after"])
        ctx.want(not got["effects"], "the library did something to the system", None, got["effects"])
        ctx.want(p.returncode == 0, "the status of a process that used the library", 0, p.returncode)
        noise += tail.replace("END\n", "", 1) + err
        ctx.want(not noise, "a process that used the library printed", "", noise)
        ctx.want(files(folder) == before, "files left by a process that used the library", None, [f for f in files(folder) if f not in before])
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    for d in got["done"]:
        ctx.label("a process of its own, " + ("done" if d == "ok" else "refused"))
    ctx.nontrivial(len({r["op"] for r in ops}) > 1)


# ------------------------------------------------------------------ objects given as arguments
USES = ["add", "add", "twice", "mul", "rmul", "raw", "coordinates", "address", "address", "public key of point", "point again", "public key", "decoded"]


@st.composite
def object_cases(draw, lib):
    return {"keys": draw(st.lists(gens.privkeys(), min_size=1, max_size=3)), "how": draw(st.sampled_from(["key", "bytes", "coordinates"])),
            "uses": draw(st.lists(st.tuples(st.sampled_from(USES), st.integers(0, 2), st.integers(0, 2),
                                            st.one_of(st.integers(0, 5), st.integers(1, ref.N - 1), gens.privkeys().map(lambda h: int(h, 16)))).map(list), min_size=1, max_size=8))}


def check_objects(case, ctx):
    lib = ctx.lib
    privs = [lib.PrivateKey.from_bytes(B(k)) for k in case["keys"]]
    want = [ref.mul_g(int(k, 16)) for k in case["keys"]]
    if case["how"] == "key":
        pubs = [p.public_key() for p in privs]
    elif case["how"] == "bytes":
        pubs = [lib.PublicKey.from_bytes(ref.ser(w, i & 1)) for i, w in enumerate(want)]
    else:
        pubs = [lib.PublicKey.from_point(lib.Point.from_coordinates(*w)) for w in want]
    points = [p.point() for p in pubs]

    def every():
        return [[p.raw(), q.raw_compressed(), q.raw_uncompressed(), t.x(), t.y(), t.raw()] for p, q, t in zip(privs, pubs, points)]

    right = [[B(k), ref.ser(w), ref.ser(w, False), w[0], w[1], ref.ser(w, False)[1:]] for k, w in zip(case["keys"], want)]
    n = len(privs)
    for name, i, j, k in case["uses"]:
        i, j = i % n, j % n
        a, b = points[i], points[j]
        call({"add": lambda: (a + b).raw(), "twice": lambda: (a + a).raw(), "mul": lambda: (a * k).raw(), "rmul": lambda: (k * a).raw(), "raw": lambda: a.raw_encoded(),
              "coordinates": lambda: (a.x(), a.y()), "address": lambda: lib.P2PKH.encode(pubs[i], public_key_type="compressed" if k & 1 else "uncompressed"),
              "public key of point": lambda: lib.PublicKey.from_point(a).raw("uncompressed"), "point again": lambda: lib.Point.from_bytes(a.raw()).raw(),
              "public key": lambda: privs[i].public_key().raw_compressed(), "decoded": lambda: a.raw_decoded()}[name])
        got = every()
        if got != right:
            bad = [(x, y) for g, w in zip(got, right) for x, y in zip(w, g) if x != y]
            ctx.fail("%s: a key or point used as an argument reads otherwise afterwards" % name, bad[0][0], bad[0][1])
        ctx.label("used: " + name)
    ctx.label("made from " + case["how"])
    ctx.nontrivial(len({u[0] for u in case["uses"]}) > 1)


UNITS = [
    Unit("state", "stub", check_state, gen=state_cases, quick=1000, thorough=40000, shards=5, tshards=8, fallback_quick=8),
    Unit("text", "stub", check_state, gen=wild_cases, quick=500, thorough=30000, shards=3, tshards=8, fallback_quick=8),
    Unit("bundled", "stub", check_state, gen=state_cases, quick=120, thorough=4000, shards=1, tshards=8, fallback_quick=4, no_native_rmd=True),
    Unit("variables", "stub", check_state, gen=state_cases, quick=300 if gens.ENV_NAMES else 30, thorough=8000 if gens.ENV_NAMES else 100, shards=1, tshards=8, fallback_quick=4,
         environ={n: "1" for n in gens.ENV_NAMES}),
    Unit("visit", "stub", check_visit, gen=visit_cases, quick=24, thorough=800, shards=3, tshards=8, fallback_quick=2),
    Unit("objects", "none", check_objects, gen=object_cases, quick=1500, thorough=60000, shards=3, tshards=8),
]
