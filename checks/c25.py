"""C25: failures and interruptions surface, and spoil nothing."""
import os
import signal
import sys

from checks import c16, c17
from checks.common import *  # noqa: F401,F403

RULE = ("interrupts: a history of operations as in C16, of which some are interrupted at a generated call of a function (of the library, or of one it "
        "uses): by KeyboardInterrupt, MemoryError, SystemExit, or because the stack is nearly full. kdf: one of its key derivations "
        "fails (out of memory, an error of scrypt). random: the operating system gives no random bytes. Such an operation must raise, and "
        "not that the passphrase is wrong where it is right, or return what it returns undisturbed; a value made from a failed random source must not be the "
        "same in two copies of a process. Every operation afterwards, on the same instances, gives what it gives alone. Non-trivial: the "
        "fault was met.")
ASSUMPTIONS = ["interruptions come where a Python function is called", "a stand-in KDF gives the same answers as scrypt"]

FAULTS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit}
KDF_FAULTS = ["MemoryError", "OSError", "RuntimeError", "scrypt.error"]
RANDOM_FAULTS = ["OSError", "NotImplementedError", "PermissionError"]


def fault(name):
    if name == "scrypt.error":
        import scrypt
        return scrypt.error("out of memory")
    return {"OSError": OSError(24, "Too many open files"), "PermissionError": PermissionError(1, "Operation not permitted"),
            "NotImplementedError": NotImplementedError("no source of randomness"), "RuntimeError": RuntimeError("no memory")}.get(name) or FAULTS[name]("C25")


USED = [(), ("/ecdsa/", "/pyaes/", "/scrypt/", "vlib/env.py"), ("/scrypt/", "vlib/env.py")]


class Calls:
    """Counts the calls of Python functions below the library, and raises at one of them."""

    def __init__(self, wide, at=None, exc=None):
        root = os.path.join(os.path.realpath(env.REPO), "bip38") + os.sep
        self.lib, self.wide, self.at, self.exc = root, wide, at, exc
        self.count, self.met = 0, False
        self.codes = {}

    def __call__(self, frame, event, arg):
        if event != "call":
            return None
        code = frame.f_code
        mine = self.codes.get(code)
        if mine is None:
            name = code.co_filename
            mine = self.codes[code] = self.wide < 2 and name.startswith(self.lib) or self.wide and any(s in name for s in USED[self.wide])
        if mine:
            if self.count == self.at:
                self.count += 1
                self.met = True
                raise self.exc
            self.count += 1
        return None

    def run(self, fn):
        sys.settrace(self)
        try:
            return fn()
        finally:
            sys.settrace(None)


def run_any(world, r):
    """World.run, with whatever is raised as an outcome."""
    try:
        return world.run(r)
    except BaseException as e:  # noqa: BLE001
        return ["raised", type(e).__name__]


def depth():
    n, f = 0, sys._getframe()
    while f:
        n, f = n + 1, f.f_back
    return n


EDITS = st.lists(st.tuples(st.sampled_from(["net", "net", "", ""]), st.integers(0, 69), st.sampled_from([0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 11, 13])).map(list), max_size=2)


DEFAULTS = [dict(op=name, i=0, n=None, m=None, k=1, p=0, q=None, s=0, c=True, d=True, t=0) for name in ("address encode", "address decode", "wif encode", "wif decode", "base58 check")]


def next_ops(lib, pool, r, edits, ops):
    """What follows the operation: helpers that are left their defaults, itself, itself with an argument exchanged (a network above all), and the
    history."""
    res = [c16.resolve(lib, pool, o) for o in DEFAULTS] + [r]
    for field, kind, i in edits:
        fields = c16.FIELDS.get(r["op"], ["net"])
        res.append(c16.edit_op(lib, pool, r, field or fields[(kind + i) % len(fields)], kind, i))
    return res + ops


@st.composite
def interrupt_cases(draw, lib):
    ops = draw(st.lists(c16.op_strategy(), min_size=1, max_size=4))
    marks = draw(st.lists(st.fixed_dictionaries({
        "op": st.integers(0, len(ops) - 1), "by": st.sampled_from(["KeyboardInterrupt"] * 2 + ["MemoryError"] * 2 + ["SystemExit", "stack"]), "wide": st.integers(0, 2), "edits": EDITS,
        "where": st.integers(0, 999), "end": st.booleans()}), min_size=1, max_size=3))
    return {"pool": draw(c16.pools(lib)), "ops": ops, "marks": marks}


def length_of(ctx, r, wide):
    def body():
        c = Calls(wide)
        world = c16.World(ctx.lib)
        world.instance(r)
        c.run(lambda: run_any(world, r))
        return c.count
    got = c16.in_child(body)
    if isinstance(got, dict):
        raise RuntimeError(got["crash"])
    return got


def disturbed(world, r, mark, n):
    """[outcome, whether the fault was met]"""
    if mark["by"] == "stack":
        old = sys.getrecursionlimit()
        # between the first call and the depth of the library
        sys.setrecursionlimit(depth() + 6 + mark["where"] % 40)
        try:
            res = run_any(world, r)
        except RecursionError:
            res = ["raised", "RecursionError"]
        finally:
            sys.setrecursionlimit(old)
        return [res, res[0] != "ok"]
    at = mark["where"] * n // 1000
    if mark["end"]:
        at = max(0, n - 1 - mark["where"] % 12)
    c = Calls(mark["wide"], at, fault(mark["by"]))
    return [c.run(lambda: run_any(world, r)), c.met]


def judge(ctx, say, got, want, by):
    """got: outcome under a fault; want: outcome without one."""
    if got == want:
        return
    ctx.want(got[0] != "ok", say + ": it returned something else than undisturbed", want, got)
    ctx.want(got[1] != "PassphraseError", say + ": the failure is taken for a wrong passphrase", by, got)
    if by in ("KeyboardInterrupt", "SystemExit"):
        ctx.want(got[1] == by, say + ": the interruption is taken for something else", by, got)


def check_interrupt(case, ctx):
    lib = ctx.lib
    ops = [c16.resolve(lib, case["pool"], o) for o in case["ops"]]
    lengths = [length_of(ctx, ops[m["op"] % len(ops)], m["wide"]) if m["by"] != "stack" else 0 for m in case["marks"]]

    def body():
        world = c16.World(lib)
        for r in ops:
            world.instance(r)
        res = []
        for m, n in zip(case["marks"], lengths):
            r = ops[m["op"] % len(ops)]
            res.append([disturbed(world, r, m, n), [run_any(world, q) for q in next_ops(lib, case["pool"], r, m["edits"], ops)]])
        return {"res": res}

    got = c16.in_child(lambda: after_all(body))
    if "crash" in got:
        ctx.fail("after an interrupted operation: " + got["crash"])
    for m, (first, rest) in zip(case["marks"], got["res"]):
        r = ops[m["op"] % len(ops)]
        say = "%s, interrupted by %s" % (r["op"], "a full stack" if m["by"] == "stack" else m["by"])
        judge(ctx, say, first[0], c16.alone(ctx, r), m["by"])
        for q, out in zip(next_ops(lib, case["pool"], r, m["edits"], ops), rest):
            want = c16.alone(ctx, q)
            if out != want:
                ctx.fail("%s after a %s that was interrupted by %s: the outcome is not that of the operation alone" % (q["op"], r["op"], m["by"]), want, out)
        if first[1]:
            ctx.label("%s: %s" % (r["op"], m["by"]))
            ctx.nontrivial()
        else:
            ctx.label("not met")


def after_all(body):
    """Ends by itself should a lock be left behind."""
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    signal.alarm(60)
    res = body()
    signal.alarm(0)
    return res


# ------------------------------------------------------------------ key derivations that fail
@st.composite
def kdf_cases(draw, lib):
    names = [n for n in c16.BIG_OPS if "random" not in n]
    return {"pool": draw(c16.pools(lib)), "ops": draw(st.lists(c16.op_strategy(2, names), min_size=1, max_size=3)), "at": draw(st.sampled_from([0, 0, 1])),
            "by": draw(st.sampled_from(KDF_FAULTS)), "times": draw(st.sampled_from([1, 1, 2, 100])), "edits": draw(EDITS)}


def check_kdf(case, ctx):
    lib = ctx.lib
    ops = [c16.resolve(lib, case["pool"], o) for o in case["ops"]]

    def body():
        world = c16.World(lib)
        for r in ops:
            world.instance(r)
        genuine = env.CURRENT[0]
        res = []
        for r in ops:
            seen = [0, 0]

            def failing(*a):
                seen[0] += 1
                if case["at"] < seen[0] <= case["at"] + case["times"]:
                    seen[1] += 1
                    raise fault(case["by"])
                return genuine(*a)

            env.CURRENT[0] = failing
            out = run_any(world, r)
            env.CURRENT[0] = genuine
            res.append([out, seen[1], [run_any(world, q) for q in next_ops(lib, case["pool"], r, case["edits"], ops)]])
        return {"res": res}

    got = c16.in_child(lambda: after_all(body))
    if "crash" in got:
        ctx.fail("after a failed key derivation: " + got["crash"])
    for r, (out, met, rest) in zip(ops, got["res"]):
        judge(ctx, "%s, a key derivation failed with %s" % (r["op"], case["by"]), out, c16.alone(ctx, r), case["by"])
        for q, o in zip(next_ops(lib, case["pool"], r, case["edits"], ops), rest):
            want = c16.alone(ctx, q)
            if o != want:
                ctx.fail("%s after a %s whose key derivation failed: the outcome is not that of the operation alone" % (q["op"], r["op"]), want, o)
        if met:
            ctx.label("%s: key derivation failed" % r["op"])
            ctx.nontrivial()


# ------------------------------------------------------------------ no randomness
@st.composite
def random_cases(draw, lib):
    o = draw(c16.op_strategy(2, ["random intermediate", "random create"]))
    o["t"] = 0
    return {"pool": draw(c16.pools(lib)), "op": o, "by": draw(st.sampled_from(RANDOM_FAULTS)), "first": draw(st.sampled_from([0, 0, 0, 1]))}


def check_random(case, ctx):
    lib = ctx.lib
    r = c16.resolve(lib, case["pool"], case["op"])
    places = c17.Source.places()

    def body():
        c17.Frozen(1)
        world = c16.World(lib)
        one = world.instance(r)
        asked = [0]
        genuine = os.urandom

        def failing(n, *a, **k):
            asked[0] += 1
            if asked[0] > case["first"]:
                raise fault(case["by"])
            return bytes(range(1, n + 1))

        keep = [(mod, name, getattr(mod, name)) for mod, name in places]
        for mod, name in places:
            setattr(mod, name, failing)
        out = call(world.perform, r)
        for mod, name, v in keep:
            setattr(mod, name, v)
        assert os.urandom is genuine
        shown = c16.plain(out)
        after = [world.run(r) for _ in range(2)]
        return {"asked": asked[0], "out": shown, "after": after}

    got = [c16.in_child(lambda: after_all(body)) for _ in range(2)]
    for g in got:
        if "crash" in g:
            ctx.fail("without random bytes: " + g["crash"])
    say = "%s, the operating system having no random bytes (%s)" % (r["op"], case["by"])
    if got[0]["asked"] > case["first"]:
        ctx.label("%s: asked in vain" % r["op"])
        ctx.nontrivial()
        if got[0]["out"][0] == "ok":
            ctx.want(got[0]["out"] != got[1]["out"], say + ": it returned a value that two copies of a process have in common", None, got[0]["out"])
            ctx.label("another source was found")
        else:
            ctx.want(got[0]["out"][1] != "PassphraseError", say + ": the failure is taken for a wrong passphrase", case["by"], got[0]["out"])
    else:
        ctx.label("not asked in vain")
    for out in got[0]["after"]:
        ctx.want(out == c16.alone(ctx, r), "%s after one that got no random bytes" % r["op"], c16.alone(ctx, r), out)


UNITS = [
    Unit("interrupts", "stub", check_interrupt, gen=interrupt_cases, quick=1500, thorough=60000, shards=4, tshards=8, fallback_quick=4),
    Unit("kdf", "stub", check_kdf, gen=kdf_cases, quick=900, thorough=40000, shards=2, tshards=8, fallback_quick=4),
    Unit("random", "stub", check_random, gen=random_cases, quick=400, thorough=15000, shards=2, tshards=8, fallback_quick=4),
]
