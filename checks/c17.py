"""C17: omitted salts and seeds are fresh, full-entropy random values."""
import os
import random
import subprocess
import sys
import threading
import time

from checks.common import *  # noqa: F401,F403
from checks.c16 import in_child

RULE = ("sample: a generated configuration (coin, passphrase, lot and sequence or not, key form, how the argument is left out) is run "
        "some 260 times in one process, with Python's random module reseeded to the same value before every call, or in eight threads, or "
        "once each in forked copies of one process whose clock, process id and random module are frozen, or in fresh "
        "interpreters. All values must differ, every byte must take many values, and no byte, nor the difference or XOR of two bytes "
        "of a draw or of the same byte of neighbouring draws, may be confined to few values. many: thousands of draws without a "
        "repetition, every byte value equally often. entropy: with a stand-in for the operating system's random source, every bit of it is "
        "flipped in turn; as many must change the value as it has bits. again: repeating a call with the salt or seed it reported gives "
        "the same result. Non-trivial: 200 draws or more; entropy: the source was seen; again: every case.")
ASSUMPTIONS = ["a stand-in KDF", "tests of randomness have a chance of failing by accident under 1e-9 per run",
               "entropy hidden behind a strong hash is seen to be low if values repeat within some thousands of draws, or if it comes from "
               "os.urandom, os.getrandom or OpenSSL"]

VARIETY = 115       # of 256 draws of a byte; 162 expected, standard deviation 5


def omitted(how, name):
    return {} if how == "absent" else {name: None}


def draw_pairs(lib, conf, n, _ref=None, before=None):
    """n pairs (owner salt, seed) chosen by the library."""
    res = []
    for i in range(n):
        one = lib.BIP38(lib.cryptocurrencies.Bitcoin, network=conf["net"])
        p = conf["pass"] if conf["same"] else conf["pass"] + str(i)
        lots = {} if conf["lot"] is None else {"lot": conf["lot"], "sequence": conf["seq"]}
        if before:
            before()
        code = one.intermediate_code(p, **lots, **omitted(conf["how"], "owner_salt"))
        if before:
            before()
        made = one.create_new_encrypted_wif(code, wif_type(conf["compressed"]), **omitted(conf["how"], "seed"))
        entropy = ref.b58cd(code)[8:16]
        res.append((entropy[:4] if conf["lot"] is not None else entropy, bytes.fromhex(made["seed"])))
    return res


def confs(n=1):
    return st.fixed_dictionaries({
        "net": st.sampled_from(["mainnet", "testnet"]), "pass": gens.passphrases(), "same": st.sampled_from([True, True, False]),
        "lotseq": st.one_of(st.none(), st.tuples(gens.lots(), gens.sequences())), "compressed": st.booleans(),
        "how": st.sampled_from(["absent", "None"])}).map(
        lambda c: dict({k: v for k, v in c.items() if k != "lotseq"}, lot=c["lotseq"] and c["lotseq"][0], seq=c["lotseq"] and c["lotseq"][1]))


@st.composite
def sample_cases(draw, lib):
    c = draw(confs())
    c["way"] = draw(st.sampled_from(["loop", "reseed", "threads", "forks", "forks"]))
    c["n"] = 256
    c["r"] = draw(st.integers(0, 2**32))
    return c


def judge(ctx, pairs, what):
    n = len(pairs)
    salts, seeds = [a for a, _ in pairs], [b for _, b in pairs]
    for name, vs in (("owner salt", salts), ("seed", seeds)):
        lens = sorted({len(v) for v in vs})
        ctx.want(len(lens) == 1 and lens[0] in ((4, 8) if name == "owner salt" else (24,)), "%s: length of the %s" % (what, name), None, lens)
        missing = n - len(set(vs))
        ctx.want(missing <= (1 if lens[0] == 4 and n < 700 else 0), "%s: %d of %d values of the %s are repeated" % (what, missing, n, name))
    if n < 200:
        return
    need = VARIETY * min(n, 256) // 256
    rows = [a + b for a, b in pairs]
    cols = list(zip(*rows))
    names = ["salt byte %d" % i for i in range(len(salts[0]))] + ["seed byte %d" % i for i in range(24)]
    for name, col in zip(names, cols):
        ctx.want(len(set(col)) >= need, "%s: %s takes few values" % (what, name), ">= %d" % need, len(set(col)))
        steps = {(b - a) & 255 for a, b in zip(col, col[1:])}
        ctx.want(len(steps) >= need, "%s: %s moves by few steps" % (what, name), ">= %d" % need, len(steps))
        for bit in range(8):
            ones = sum(v >> bit & 1 for v in col)
            ctx.want(abs(2 * ones - n) <= 9 * n ** .5, "%s: bit %d of %s is biased" % (what, bit, name), n // 2, ones)
    for i in range(len(cols)):
        for j in range(i):
            for rel, op in (("difference", lambda a, b: (a - b) & 255), ("XOR", lambda a, b: a ^ b), ("sum", lambda a, b: (a + b) & 255)):
                got = len({op(a, b) for a, b in zip(cols[i], cols[j])})
                ctx.want(got >= need, "%s: %s of %s and %s takes few values" % (what, rel, names[i], names[j]), ">= %d" % need, got)


class Frozen:
    """Clock, process id and random module as they were."""

    def __init__(self, seed):
        random.seed(seed)
        now = 1700000000.5
        for name in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
            setattr(time, name, lambda: now)
            setattr(time, name + "_ns", lambda: int(now * 1e9))
        os.getpid = lambda: 4242
        os.getppid = lambda: 4241


def check_sample(case, ctx):
    lib, way, n = ctx.lib, case["way"], case["n"] if ctx.lib.calibrated else 40
    what = "%d draws, %s" % (n, way)

    def as_json(pairs):
        return [[a.hex(), b.hex()] for a, b in pairs]

    def one_process():
        if way == "loop":
            return as_json(draw_pairs(lib, case, n))
        if way == "reseed":
            return as_json(draw_pairs(lib, case, n, before=lambda: random.seed(case["r"])))
        parts, errors = [], []

        def body():
            try:
                parts.extend(draw_pairs(lib, case, n // 8))
            except Exception as e:  # noqa: BLE001
                errors.append(repr(e))

        sys.setswitchinterval(1e-5)
        ts = [threading.Thread(target=body) for _ in range(8)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errors:
            raise RuntimeError(errors[0])
        return as_json(parts)

    if way == "forks":
        def warm():
            """A process that has used the library, and its copies."""
            draw_pairs(lib, case, 2)

            def frozen():
                Frozen(case["r"])
                return as_json(draw_pairs(lib, case, 1))

            res = []
            for _ in range(n):
                got = in_child(frozen)
                if "crash" in got:
                    return got
                res += got
            return res

        got = in_child(warm)
    else:
        got = in_child(one_process)
    if isinstance(got, dict):
        ctx.fail(what + ": " + got["crash"])
    judge(ctx, [(B(a), B(b)) for a, b in got], what)
    ctx.label(way)
    ctx.label("lot and sequence" if case["lot"] is not None else "no lot and sequence")
    ctx.nontrivial(len(got) >= 200)


@st.composite
def process_cases(draw, lib):
    c = draw(confs())
    c["n"] = 2
    return c


def check_processes(case, ctx):
    pairs = []
    for _ in range(8):
        run = subprocess.run([sys.executable, "-m", "vlib.fresh", gens.json.dumps(case)], stdin=subprocess.DEVNULL,
                             env=dict(os.environ, PYTHONHASHSEED="0"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
        if run.returncode:
            ctx.fail("in a fresh interpreter: " + run.stderr.decode("utf-8", "replace")[-300:])
        pairs += [(B(a), B(b)) for a, b in gens.json.loads(run.stdout)]
    judge(ctx, pairs, "fresh interpreters")
    ctx.nontrivial(True)


def many_cases(ctx):
    for i, (lot, what) in enumerate([(None, "salt"), (None, "seed"), (None, "seed"), (None, "salt")]):
        yield {"what": what, "i": i, "n": 4000 if ctx.tier == "quick" else 40000}


def check_many(case, ctx):
    lib = ctx.lib
    seen = set()
    one = lib.BIP38(lib.cryptocurrencies.Bitcoin)
    code = ref.intermediate("p", bytes(8))
    for _ in range(case["n"] if lib.calibrated else 100):
        v = (ref.b58cd(one.intermediate_code("p"))[8:16] if case["what"] == "salt" else
             bytes.fromhex(one.create_new_encrypted_wif(code, "wif-compressed")["seed"]))
        ctx.want(v not in seen, "%s repeated within %d draws" % (case["what"], len(seen)), None, v.hex())
        seen.add(v)
    if lib.calibrated:
        counts = [0] * 256
        for v in seen:
            for byte in v:
                counts[byte] += 1
        mean = sum(counts) / 256
        odd = [b for b in range(256) if abs(counts[b] - mean) > 9 * mean ** .5]
        ctx.want(not odd, "%s: byte values %s come up too often or too seldom" % (case["what"], odd[:8]), int(mean), [counts[b] for b in odd[:8]])
    for cut in (8,) if case["what"] == "salt" else (8, 12, 16):      # nor any part of it
        parts = len({v[:cut] for v in seen}), len({v[-cut:] for v in seen})
        ctx.want(parts == (len(seen),) * 2, "%d bytes of the %s repeated within %d draws" % (cut, case["what"], len(seen)), len(seen), parts)
    ctx.label(case["what"])
    ctx.nontrivial(True)


class Source:
    """Stand-in for the operating system's random source: bytes of a given base, with some bits flipped."""

    def __init__(self, base, flip=None):
        self.base, self.flip, self.used = base, flip, 0

    def urandom(self, n):
        res = bytearray()
        while len(res) < n:
            at = self.used + len(res)
            res += ref.sha256(self.base + b"%d" % (at // 32))[at % 32:][:n - len(res)]
        if self.flip is not None and self.used <= self.flip // 8 < self.used + n:
            res[self.flip // 8 - self.used] ^= 1 << self.flip % 8
        self.used += n
        return bytes(res)

    @staticmethod
    def places():
        """Where modules hold the functions to replace."""
        real = {id(f) for f in (os.urandom, getattr(os, "getrandom", None), getattr(sys.modules.get("ssl"), "RAND_bytes", None)) if f}
        return [(mod, name) for mod in list(sys.modules.values()) for name, v in list(getattr(mod, "__dict__", {}).items()) if id(v) in real]

    def install(self, places):
        for mod, name in places:
            setattr(mod, name, lambda n, *a, **k: self.urandom(n))


def drawn(lib, case, base, places, flip=None):
    """(value, bytes of the source used) in a copy of this process where nothing else is random."""
    def body():
        Frozen(1)
        src = Source(base, flip)
        one = lib.BIP38(lib.cryptocurrencies.Bitcoin)
        code = ref.intermediate("p", bytes(8))
        src.install(places)
        if case["what"] == "seed":
            v = B(one.create_new_encrypted_wif(code, wif_type(case["compressed"]))["seed"])
        else:
            raw = ref.b58cd(one.intermediate_code(case["pass"], **({} if case["lot"] is None else {"lot": case["lot"], "sequence": case["seq"]})))
            v = raw[8:16] if case["lot"] is None else raw[8:12]
        return [v.hex(), src.used]

    got = in_child(body)
    if isinstance(got, dict):
        raise RuntimeError(got["crash"])
    return B(got[0]), got[1]


@st.composite
def entropy_cases(draw, lib):
    c = draw(confs())
    c["what"] = draw(st.sampled_from(["salt", "salt", "seed"]))
    c["r"] = draw(st.integers(0, 2**32))
    return c


def check_entropy(case, ctx):
    """Of a value that takes all its 2^n forms equally often, a flipped bit of the source must, on average, change it for n bits or
    more (the edge isoperimetric inequality of the cube)."""
    lib, base = ctx.lib, b"%d" % case["r"]
    places = Source.places()
    value, used = drawn(lib, case, base, places)
    ctx.label("%s from %d bytes" % (case["what"], used))
    if drawn(lib, case, base, places) != (value, used) or used == 0 or used > 96:
        ctx.label("source not seen")
        return
    moved = 0
    for bit in range(8 * used):
        moved += drawn(lib, case, base, places, bit)[0] != value
    n = 8 * len(value)
    ctx.want(moved >= n - max(4, n // 20), "%s of %d bits: bits of the random source that have an influence on it" % (case["what"], n), ">= %d" % n, moved)
    ctx.nontrivial(True)


def check_again(case, ctx):
    """An omitted value is as good as an explicit one."""
    lib = ctx.lib
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    one, kw = instance(lib, case["coin"], case["net"], case["per_call"])
    p, comp, lot, seq = case["pass"], case["compressed"], case["lot"], case["seq"]
    lots = {} if lot is None else {"lot": lot, "sequence": seq}
    code = ctx.value(call(one.intermediate_code, p, **lots, **omitted(case["how"], "owner_salt")), "intermediate_code")
    raw = ref.b58cd(code)
    ctx.want(raw is not None and len(raw) == 49, "an intermediate code", None, code)
    salt = raw[8:12] if lot is not None else raw[8:16]
    ctx.same(code, ref.intermediate(p, salt, lot, seq), "intermediate_code with an omitted salt, for the salt in it")
    ctx.same(ctx.value(call(one.intermediate_code, p, **lots, owner_salt=salt), "again"), code, "intermediate_code, again with the salt in it")
    made = ctx.value(call(one.create_new_encrypted_wif, code, wif_type(comp), **omitted(case["how"], "seed"), **kw), "create_new_encrypted_wif")
    seed = made["seed"]
    ctx.want(isinstance(seed, str) and len(seed) == 48 and seed == seed.lower(), "the seed reported", "48 hex digits", seed)
    same_detail(ctx, made, ref.create(code, B(seed), comp, ap), "create_new_encrypted_wif with an omitted seed")
    for s in (seed, B(seed)):
        again = ctx.value(call(one.create_new_encrypted_wif, code, wif_type(comp), seed=s, **kw), "again")
        ctx.want(again == made, "create_new_encrypted_wif, again with the seed reported", made, again)
    got = ctx.value(call(one.decrypt, made["encrypted_wif"], p, detail=True, **kw), "decrypt")
    same_detail(ctx, got, dict(seed=seed, lot=lot, sequence=seq, address=made["address"]), "decrypt")
    ctx.same(ctx.value(call(one.confirm_code, p, made["confirmation_code"], **kw), "confirm_code"), made["address"], "confirm_code")
    ctx.nontrivial(True)


@st.composite
def again_cases(draw, lib):
    case = draw(ec_cases(lib, stub=False))
    case["how"] = draw(st.sampled_from(["absent", "None"]))
    return case


UNITS = [
    Unit("sample", "stub", check_sample, gen=sample_cases, quick=32, thorough=1500, shards=4, tshards=8, fallback_quick=0),
    Unit("many", "stub", check_many, cases=many_cases, shards=4, tshards=4),
    Unit("entropy", "stub", check_entropy, gen=entropy_cases, quick=9, thorough=160, shards=3, tshards=8),
    Unit("processes", "none", check_processes, gen=process_cases, quick=3, thorough=60, shards=1, tshards=2),
    Unit("again", "stub", check_again, gen=again_cases, quick=1500, thorough=60000, shards=2, tshards=8),
]
