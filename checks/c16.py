"""C16: results depend only on the arguments, not on history or concurrency."""
import gc
import hashlib
import os
import random
import re
import select
import signal
import subprocess
import sys
import tempfile
import threading
import time

from checks.common import *  # noqa: F401,F403
from vlib.core import ROOT

RULE = ("A case is a pool of keys, passphrases, salts, seeds, coins and instances and a sequence of operations over it (plain and "
        "EC-multiplied, right and wrong passphrases, other networks, damaged codes, helpers with default and explicit options, "
        "omitted salts). history: the sequence runs in one process that is a copy of one in which the library has done "
        "nothing; every outcome must equal that of the operation run alone in such a process, and coin definitions, arguments, "
        "and standard output must be untouched. near: an operation and others that differ from it in one argument (a symbol of a code, a byte of a salt, a letter of a passphrase), in turn. long: hundreds of operations. fleeting: coin classes, instances and arguments that are made for one operation and forgotten. threads: two to four threads on shared instances, "
        "switched between lines of the library by a schedule that is part of the case. places: fresh interpreters with other hash seeds, "
        "optimisation, locales, directories and users, and with the environment variables that the code mentions. Non-trivial: at least three operations "
        "of two kinds (history), or two threads of which each is interrupted (threads).")
ASSUMPTIONS = ["a stand-in KDF gives the same answers as scrypt", "threads are switched between lines of Python and in the KDF, not within a line"]

ALPHABETS = [ref.B58, "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz", ref.B58[::-1]]
BIG_OPS = ["encrypt", "decrypt", "decrypt", "decrypt ec", "decrypt ec", "confirm", "confirm", "create", "intermediate", "random intermediate", "random create"]
SMALL_OPS = ["construct", "wif encode", "wif decode", "wif type", "wif helpers", "address encode", "address encode", "address decode", "base58",
             "base58 check", "hashes", "public key", "point", "convert"]


@st.composite
def twins(draw, values, akin, size):
    """Values of which most are close to the first."""
    first = draw(values)
    res = [first]
    while len(res) < size:
        v = draw(st.one_of(values, akin(first), akin(first)))
        if v in res:
            v = draw(values)
        res.append(v)
    return res


@st.composite
def pools(draw, lib, sizes=2):
    c = coins(lib)
    specs = draw(st.lists(gens.coin_net(c, own_alphabet=True), min_size=1, max_size=3))
    if len(specs) < 3 and draw(st.integers(0, 2)) == 0:
        specs.append(draw(gens.kin_coin(c, specs[0][0])))
    lots = draw(st.lists(st.one_of(st.none(), st.tuples(gens.lots(), gens.sequences()).map(list)), min_size=sizes, max_size=sizes))
    if lots[0] and draw(st.booleans()):
        lots[1] = draw(st.sampled_from([[lots[0][0], 4095 - lots[0][1]], [1099999 - lots[0][0], lots[0][1]], lots[0]]))
    words = draw(twins(gens.passphrases(), akin_text, sizes))
    if draw(st.integers(0, 3)) == 0:
        words[:2] = map(gens._clean, draw(gens.loose_pairs()))
    keys, salts = draw(twins(gens.privkeys(), akin_key, sizes)), draw(twins(gens.salts8(), akin_bytes, sizes))
    if draw(st.integers(0, 5)) == 0:        # an owner salt that is the address hash of one of the keys
        pt = ref.mul_g(int(keys[0], 16))
        salts[0] = ref.dsha(ref.address(pt, c.prefixes(*specs[0])[1], draw(st.booleans())).encode())[:4].hex() + salts[0][8:]
    return {"inst": [list(s) for s in specs], "pass": words, "lots": lots, "keys": keys, "salts": salts,
            "seeds": draw(twins(gens.seeds(), akin_bytes, sizes))}


def op_strategy(pool_size=2, names=None):
    ix = st.integers(0, pool_size - 1)
    return st.fixed_dictionaries({
        "op": st.sampled_from(names or (BIG_OPS * 2 + SMALL_OPS)),
        "i": st.integers(0, 2), "n": st.sampled_from([None, None, None, 0, 1, 2, "nowhere"]), "m": st.sampled_from([None, None, None, 0, 1, 2]),
        "k": ix, "p": ix, "q": st.sampled_from([None, None, None, 0, 1]), "s": ix, "c": st.booleans(), "d": st.booleans(),
        "t": st.sampled_from([0] * 16 + list(range(1, 10)) + [4])})


def damage(code, how, alphabet=ref.B58):
    if how == 1:
        return code[:-1] + ("2" if code[-1] != "2" else "3")
    if how == 2:
        return code[:7] + code[8:9] + code[7:8] + code[9:]
    if how == 3:
        return code[:-2]
    if how >= 4:            # the checksum fits
        raw = bytearray(ref.b58cd(code, alphabet))
        i = (how * 7 + sum(raw)) % len(raw)
        if how == 4:
            raw = raw + raw[-1:]
        elif how == 5:
            raw = raw[:-1]
        elif how == 6:
            raw[2] ^= 1 << i % 8
        elif how == 7:
            raw[i] ^= 1 << how * i % 8
        elif how == 8:
            raw = raw + raw
        else:
            raw[0] ^= 0x80
        return ref.b58ce(bytes(raw), alphabet)
    return code


def resolve(lib, pool, o):
    """The operation with all its arguments, as JSON."""
    c = coins(lib)
    for known, _net in pool["inst"]:
        c.cls(known)
    spec, home = pool["inst"][o["i"] % len(pool["inst"])]
    mspec, mhome = pool["inst"][(o["i"] if o["m"] is None else o["m"]) % len(pool["inst"])]
    nets = sorted(c.table[spec]) if isinstance(spec, str) else sorted(spec)
    net = o["n"] if o["n"] in (None, "nowhere") else nets[o["n"] % len(nets)]
    eff = net if net in nets else home
    if o["m"] is None:
        mspec, mhome = spec, eff
    wp, ap = c.prefixes(mspec, mhome)
    p, key, comp = pool["pass"][o["p"]], B(pool["keys"][o["k"]]), o["c"]
    q = p if o["q"] is None else pool["pass"][o["q"]]
    salt, seed, lot = pool["salts"][o["s"]], B(pool["seeds"][o["k"]]), pool["lots"][o["s"]]
    lot, seq = lot or (None, None)
    name = o["op"]
    r = {"op": name, "coin": spec, "home": home, "net": net}
    if name in ("encrypt", "wif decode", "wif type", "wif helpers"):
        r.update(wif=damage(ref.wif(key, wp, comp), o["t"]), p=p, explicit=o["d"])
    elif name == "decrypt":
        r.update(code=damage(ref.encrypt(key, comp, ap, p), o["t"]), p=q, detail=o["d"])
    elif name in ("decrypt ec", "confirm"):
        made = ref.create(ref.intermediate(p, B(salt), lot, seq), seed, comp, ap)
        r.update(code=damage(made["encrypted_wif" if name == "decrypt ec" else "confirmation_code"], o["t"]), p=q, detail=o["d"])
    elif name in ("create", "random create"):
        # some that are refused for another reason than their code
        wrong, t = (o["t"], 0) if o["t"] in (2, 3, 8, 9) and o["k"] + o["s"] != 1 else (0, o["t"])
        r.update(code=damage(ref.intermediate(p, B(salt), lot, seq), t), type=["wif-uncompressed", "", "WIF"][o["s"] % 3] if wrong > 3 else wif_type(comp),
                 seed=None if name != "create" else {2: seed[:-1], 3: seed + b"\1"}.get(wrong, seed).hex())
    elif name in ("intermediate", "random intermediate"):
        t = o["t"]
        if t in (1, 2):
            lot, seq = (1048576, 0) if t == 1 else (100000, 4096)
        elif t in (3, 4):
            lot, seq = (lot or 100000, None) if t == 3 else (None, seq or 0)
        elif t in (5, 6):
            lot, seq = (99999, 1) if t == 5 else (100000, -1)
        r.update(p=p, lot=lot, seq=seq, salt=None if name != "intermediate" else {7: salt[:-2], 8: salt + "00", 9: salt[:6]}.get(t, salt))
    elif name == "construct":
        pass
    elif name == "wif encode":
        r.update(key=key.hex(), explicit=o["d"])
    elif name in ("address encode", "address decode", "base58", "base58 check"):
        pt = ref.mul_g(int.from_bytes(key, "big"))
        a = None if o["q"] is None else (o["k"] + o["s"]) % len(ALPHABETS)
        r.update(pub=ref.ser(pt, o["p"] == 0).hex(), type=None if o["d"] else "compressed" if comp else "uncompressed",
                 alphabet=a, prefix=ap if o["s"] else None,
                 addr=damage(ref.address(pt, ap if o["s"] else 0, comp, ALPHABETS[a or 0]), o["t"], ALPHABETS[a or 0]))
    else:
        r.update(key=key.hex(), other=pool["keys"][(o["k"] + 1) % len(pool["keys"])], comp=comp, damage=o["t"])
    return r


class World:
    """What one process holds: instances and key objects live as long as it does."""

    def __init__(self, lib):
        self.lib, self.inst, self.pubs = lib, {}, {}

    def instance(self, r):
        k = canon([r["coin"], r["home"]])
        if k not in self.inst:
            self.inst[k] = bip(self.lib, r["coin"], r["home"])
        return self.inst[k]

    def pub(self, hexed):
        # the same object whether the key is given compressed or uncompressed
        pt = ref.parse_pub(B(hexed))
        if pt not in self.pubs:
            self.pubs[pt] = self.lib.PublicKey.from_bytes(B(hexed))
        return self.pubs[pt]

    def run(self, r):
        out = call(self.perform, r)
        shown = plain(out)
        if r["op"].startswith("random"):
            shown = [shown[0]] + ([sorted(out.value)] if out.ok and isinstance(out.value, dict) else [len(out.value)] if out.ok else shown[1:])
            if out.ok and r["op"] == "random intermediate":
                shown = shown[:1]
        if out.ok and isinstance(out.value, dict):      # what a caller does to a result is no business of the library
            for k in list(out.value):
                out.value[k] = "spoilt"
        return shown

    def perform(self, r):
        lib, name = self.lib, r["op"]
        kw = {} if r["net"] is None else {"network": r["net"]}
        cls = coins(lib).cls(r["coin"])
        net = r["net"] if r["net"] in cls.NETWORKS else r["home"]
        if name == "encrypt":
            return self.instance(r).encrypt(r["wif"], r["p"], **kw)
        if name in ("decrypt", "decrypt ec"):
            return self.instance(r).decrypt(r["code"], r["p"], detail=r["detail"], **kw)
        if name == "confirm":
            return self.instance(r).confirm_code(r["p"], r["code"], detail=r["detail"], **kw)
        if name in ("create", "random create"):
            return self.instance(r).create_new_encrypted_wif(r["code"], r["type"], **kw, **({} if r["seed"] is None else {"seed": r["seed"]}))
        if name in ("intermediate", "random intermediate"):
            lots = {k: v for k, v in (("lot", r["lot"]), ("sequence", r["seq"])) if v is not None}
            return self.instance(r).intermediate_code(r["p"], **lots, **({} if r["salt"] is None else {"owner_salt": r["salt"]}))
        if name == "construct":
            one = lib.BIP38(cls, **kw)
            return [type(one).__name__, one.network]
        w = lib.wif
        if name == "wif encode":
            return w.encode_wif(r["key"]) if r["explicit"] else w.private_key_to_wif(B(r["key"]), cryptocurrency=cls, network=net)
        if name == "wif decode":
            return w.decode_wif(r["wif"]) if r["explicit"] else w.decode_wif(r["wif"], cls.NETWORKS[net]["wif_prefix"])
        if name == "wif type":
            return w.get_wif_type(r["wif"]) if r["explicit"] else w.get_wif_type(r["wif"], cls, net)
        if name == "wif helpers":
            return [w.wif_to_private_key(r["wif"], cls, net), w.get_wif_checksum(r["wif"], cls, net)]
        if name in ("address encode", "address decode"):
            opts = {}
            if r["prefix"] is not None:
                opts["address_prefix"] = r["prefix"]
            if r["alphabet"] is not None:
                opts["alphabet"] = ALPHABETS[r["alphabet"]]
            if name == "address decode":
                return lib.P2PKH.decode(r["addr"], **opts)
            if r["type"]:
                opts["public_key_type"] = r["type"]
            return lib.P2PKH.encode(self.pub(r["pub"]), **opts)
        b58 = lib.base58
        alpha = () if r.get("alphabet") is None else (ALPHABETS[r["alphabet"]],)
        if name == "base58":
            return [b58.encode(B(r["pub"]), *alpha), b58.decode(r["addr"], *alpha)]
        if name == "base58 check":
            return [b58.check_encode(B(r["pub"]), *alpha), b58.check_decode(r["addr"], *alpha)]
        key = r["key"]
        if name == "hashes":
            c = lib.crypto
            return [f(key if r["comp"] else B(key)) for f in (c.ripemd160, c.sha256, c.double_sha256, c.hash160, c.get_checksum)] + [
                lib.ripemd160.ripemd160(B(key))]
        if name == "public key":
            pub = lib.PrivateKey.from_bytes(B(key)[r["damage"]:]).public_key()
            return [pub.raw_compressed(), pub.raw_uncompressed(), pub.raw("compressed" if r["comp"] else "uncompressed")]
        if name == "point":
            a = lib.PrivateKey.from_bytes(B(key)).public_key().point()
            b = lib.PrivateKey.from_bytes(B(r["other"])).public_key().point()
            s = (a + b) if a.x() != b.x() else a
            return [[s.x(), s.y()], (a * (r["damage"] + 1)).raw_encoded(), a.raw_decoded(), lib.Point.from_bytes(b.raw()).raw()]
        u = lib.utils
        data = bytearray(B(key))
        res = [u.bytes_reverse(data), u.bytes_to_string(B(key)), u.get_bytes(key), u.bytes_to_integer(B(key)), u.integer_to_bytes(int(key, 16))]
        if bytes(data) != B(key):
            return "bytes_reverse changed its argument"
        return res


def plain(out):
    if not out.ok:
        return ["refused", type(out.exc).__name__]
    return ["ok", plain_value(out.value)]


def plain_value(v):
    if isinstance(v, (bytes, bytearray)):
        return {"bytes": bytes(v).hex()}
    if isinstance(v, dict):
        return {"dict": [[k, plain_value(v[k])] for k in sorted(v, key=str)]}
    if isinstance(v, (list, tuple)):
        return [plain_value(x) for x in v]
    if v is None or isinstance(v, (str, int, bool)):
        return v
    return {"other": type(v).__name__}


def definitions(lib):
    snap = {}
    for name, cls in vars(lib.cryptocurrencies).items():
        if isinstance(cls, type) and hasattr(cls, "NETWORKS"):
            snap[name] = [plain_value({n: dict(v) for n, v in getattr(cls, "NETWORKS", {}).items()}), getattr(cls, "ALPHABET", None)]
    for k, cls in coins(lib).cache.items():
        snap["user " + k] = plain_value({n: dict(v) for n, v in cls.NETWORKS.items()})
    return snap


WAIT_S = 150


def in_child(fn):
    """Runs fn in a copy of this process, in which the library has done nothing yet; returns its JSON."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            os.close(r)
            sys.settrace(None)
            data = gens.json.dumps(fn()).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BaseException as e:  # noqa: BLE001
            try:
                os.write(w, gens.json.dumps({"crash": "%s: %s" % (type(e).__name__, e)}).encode())
            except OSError:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data, end = b"", time.time() + WAIT_S
    try:
        while True:
            if not select.select([r], [], [], max(0.01, end - time.time()))[0]:
                os.kill(pid, signal.SIGKILL)
                return {"crash": "no result after %d s" % WAIT_S}
            part = os.read(r, 1 << 16)
            if not part:
                break
            data += part
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    return gens.json.loads(data) if data else {"crash": "ended without a result"}


ALONE = {}


def alone(ctx, r):
    """The outcome of this operation in a process where nothing went before it."""
    k = canon(r)
    if k not in ALONE:
        if len(ALONE) > 20000:
            ALONE.clear()
        ALONE[k] = in_child(lambda: World(ctx.lib).run(r))
        if isinstance(ALONE[k], dict) and "crash" in ALONE[k]:
            raise RuntimeError("operation alone: " + ALONE[k]["crash"] + " " + k)
    return ALONE[k]


def quietly(fn):
    """(result of fn, what it wrote to standard output and error)."""
    with tempfile.TemporaryFile() as f:
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(f.fileno(), 1)
        os.dup2(f.fileno(), 2)
        res = fn()
        sys.stdout.flush()
        sys.stderr.flush()
        f.seek(0)
        return res, f.read(200).decode("utf-8", "replace")


def run_history(ctx, pool, ops):
    lib = ctx.lib
    before = definitions(lib)

    def go():
        world = World(lib)
        for r in ops:
            world.instance(r)
        return [world.run(r) for r in ops]

    res, noise = quietly(go)
    return {"res": res, "noise": noise, "changed": [k for k, v in definitions(lib).items() if before.get(k) != v]}


def judge(ctx, got, ops, expected, what):
    if "crash" in got:
        ctx.fail("%s: %s" % (what, got["crash"]))
    for i, (r, want) in enumerate(zip(ops, expected)):
        if got["res"][i] != want:
            ctx.fail("%s, operation %d (%s): the outcome is not that of the operation alone" % (what, i, short(canon(r), 200)), want, got["res"][i])
    ctx.want(not got["changed"], what + ": coin definitions changed", None, got["changed"])
    ctx.want(not got["noise"], what + ": text on standard output or error", "", got["noise"])


@st.composite
def history_cases(draw, lib):
    pool = draw(pools(lib))
    return {"pool": pool, "ops": draw(st.lists(op_strategy(), min_size=2, max_size=14))}


def check_history(case, ctx):
    ops = [resolve(ctx.lib, case["pool"], o) for o in case["ops"]]
    expected = [alone(ctx, r) for r in ops]
    got = in_child(lambda: run_history(ctx, case["pool"], ops))
    judge(ctx, got, ops, expected, "history")
    for r, e in zip(ops, expected):
        ctx.label(r["op"] + (": refused" if e[0] == "refused" else ""))
    ctx.nontrivial(len(ops) >= 3 and len({r["op"] for r in ops}) > 1)


# ------------------------------------------------------------------ operations that differ in one place
def edit_text(t, kind, i, symbols=ref.B58):
    """Another text, close to this one."""
    n = len(t) or 1
    j = [i % n, i % 4, i % 8, n - 1 - i % 6, i % n][kind % 5] % n
    c, s = t[j:j + 1], symbols[(i // 7) % len(symbols)]
    return [lambda: t[:j] + s + t[j + 1:], lambda: t[:j] + c.swapcase() + t[j + 1:], lambda: t[:j] + t[j + 1:], lambda: t[:j] + c + t[j:],
            lambda: t[:j] + t[j + 1:j + 2] + c + t[j + 2:], lambda: t + s, lambda: s + t, lambda: t.lower(), lambda: t.upper(), lambda: t.swapcase(),
            lambda: " " + t, lambda: t + "\n", lambda: t[:j] + s + t[j + 1:], lambda: t[::-1]][(kind // 5) % 14]()


def edit_hex(h, kind, i):
    b = bytearray(B(h))
    n = len(b)
    j = [i % n, 0, n - 1, n // 2, n // 2 - 1][kind % 5]
    if kind % 3 == 0:
        b[j] ^= 1 << i % 8
    elif kind % 3 == 1:
        b[j], b[(j + 1) % n] = b[(j + 1) % n], b[j]
    else:
        b[j:] = bytes(x ^ (i % 255 + 1) for x in b[j:])
    return bytes(b).hex()


def rewrite(lib, r, spec, home):
    """The WIF of the operation, under the version of another coin."""
    c = coins(lib)
    old = c.table[r["coin"]] if isinstance(r["coin"], str) else r["coin"]
    head = ref.int_bytes(c.prefixes(r["coin"], r["net"] if r["net"] in old else r["home"])[0])
    raw = ref.b58cd(r["wif"])
    if raw is None or not raw.startswith(head):
        return r["wif"]
    new = c.table[spec] if isinstance(spec, str) else spec
    return ref.b58ce(ref.int_bytes(c.prefixes(spec, r["net"] if r["net"] in new else home)[0]) + raw[len(head):])


def edit_op(lib, pool, r, field, kind, i):
    """The operation with one argument exchanged for one close to it (or the same operation, if this has none)."""
    r = dict(r)
    v = r.get(field)
    if field in ("code", "wif", "addr") and isinstance(v, str):
        r[field] = edit_text(v, kind, i)
    elif field == "p" and isinstance(v, str):
        r[field] = gens._clean([edit_text(v, kind, i, "xX 0\u00e9\u0301"), pool["pass"][i % len(pool["pass"])], gens.unicodedata.normalize(["NFD", "NFKC"][i % 2], v),
                                v + "x" * (i % 70), v[:i % (len(v) + 1)]][i // 11 % 5])
    elif field in ("key", "other", "seed", "salt") and isinstance(v, str):
        w = edit_hex(v, kind, i)
        r[field] = w if len(w) != 64 or 0 < int(w, 16) < ref.N else v
    elif field == "pub" and v:
        r[field] = ref.ser(ref.mul_g(i % 50 + 1), i % 2 == 0).hex()
    elif field in ("lot", "seq") and isinstance(v, int):
        lo, hi = (100000, 999999) if field == "lot" else (0, 4095)
        r[field] = [min(hi, v + 1), max(lo, v - 1), lo + hi - v, v ^ (1 << i % 12), min(hi, v + 256)][kind % 5]
    elif field == "net":
        nets = [None, "nowhere"] + sorted(coins(lib).table[r["coin"]] if isinstance(r["coin"], str) else r["coin"])
        r[field] = nets[i % len(nets)]
    elif field == "coin":
        if kind % 3:
            spec, home = pool["inst"][i % len(pool["inst"])] if kind % 3 == 1 else coins(lib).std[i % len(coins(lib).std)]
        else:
            names = coins(lib).table[r["coin"]] if isinstance(r["coin"], str) else r["coin"]
            spec, home = gens.kin_of(coins(lib), r["coin"], r["net"] if r["net"] in names else r["home"], 1 if i % 3 else 0, i // 3 % 8), r["home"]
        coins(lib).cls(spec)
        if isinstance(r.get("wif"), str) and (i + kind) % 2:
            r["wif"] = rewrite(lib, r, spec, home)
        r.update(coin=spec, home=home)
        if r["net"] not in (None, "nowhere") and r["net"] not in coins(lib).cls(spec).NETWORKS:
            r["net"] = None
    elif field == "type" and "type" in r:
        kinds = [None, "compressed", "uncompressed"] if r["op"].startswith("address") else ["wif", "wif-compressed", "WIF"]
        r[field] = kinds[i % 3]
    elif field == "prefix" and "prefix" in r:
        r[field] = [None, 0, 5, 111, 48, 0x1CB8, 256][i % 7]
    elif field == "alphabet" and "alphabet" in r:
        r[field] = [None, 0, 1, 2][i % 4]
    elif field in ("detail", "comp", "explicit") and field in r:
        r[field] = not v
    elif field == "damage" and "damage" in r:
        r[field] = i % 5
    return r


FIELDS = {"encrypt": ["wif", "wif", "p", "p", "net", "coin", "coin"], "decrypt": ["code", "code", "p", "p", "net", "coin", "coin", "detail"], "confirm": ["code", "code", "p", "p", "net", "coin", "coin", "detail"],
          "create": ["code", "code", "seed", "seed", "type", "net", "coin", "coin"], "random create": ["code", "type", "net", "coin", "coin"],
          "intermediate": ["p", "p", "lot", "seq", "salt", "salt"], "random intermediate": ["p", "lot", "seq"], "construct": ["coin", "net"],
          "wif encode": ["key", "explicit", "coin", "net"], "wif decode": ["wif", "wif", "explicit", "coin", "net"], "wif type": ["wif", "wif", "explicit", "coin", "net"],
          "wif helpers": ["wif", "wif", "coin", "net"], "address encode": ["pub", "type", "prefix", "alphabet"], "address decode": ["addr", "addr", "prefix", "alphabet"],
          "base58": ["pub", "addr", "addr", "alphabet"], "base58 check": ["pub", "addr", "addr", "alphabet"], "hashes": ["key", "comp"], "public key": ["key", "comp", "damage"],
          "point": ["key", "other", "damage"], "convert": ["key"]}
FIELDS["decrypt ec"] = FIELDS["decrypt"]


@st.composite
def near_cases(draw, lib):
    o = draw(op_strategy())
    o["t"] = draw(st.sampled_from([0, 0, 0, 0, o["t"]]))
    edit = st.tuples(st.sampled_from(FIELDS[o["op"]]), st.integers(0, 69), st.integers(0, 10000)).map(list)
    return {"pool": draw(pools(lib)), "op": o, "edits": draw(st.lists(edit, min_size=2, max_size=6)), "chain": draw(st.booleans()), "back": draw(st.booleans())}


def check_near(case, ctx):
    lib, pool = ctx.lib, case["pool"]
    first = resolve(lib, pool, case["op"])
    ops, last = [], first
    for field, kind, i in case["edits"]:
        last = edit_op(lib, pool, last if case["chain"] else first, field, kind, i)
        ops += [last]
        if last != first:
            ctx.label("%s with another %s" % (first["op"], field))
    distinct = {canon(r) for r in ops} - {canon(first)}
    ops = ([first] + ops + [first] + ops[::-1]) if not case["back"] else ops + [first] + ops + [first]
    expected = [alone(ctx, r) for r in ops]
    got = in_child(lambda: run_history(ctx, pool, ops))
    judge(ctx, got, ops, expected, "operations that differ in one argument")
    ctx.nontrivial(len(distinct) > 0)


@st.composite
def long_cases(draw, lib):
    pool = draw(pools(lib))
    return {"pool": pool, "ops": draw(st.lists(op_strategy(), min_size=3, max_size=16)), "order": draw(st.integers(0, 2**32)),
            "repeat": draw(st.sampled_from([40, 80, 150, 300]))}


def check_long(case, ctx):
    few = [resolve(ctx.lib, case["pool"], o) for o in case["ops"]]
    rng = random.Random(case["order"])
    weights = [rng.choice((1, 1, 2, 8)) for _ in few]
    ops = rng.choices(few, weights, k=case["repeat"])
    expected = [alone(ctx, r) for r in ops]
    got = in_child(lambda: run_history(ctx, case["pool"], ops))
    judge(ctx, got, ops, expected, "long history")
    ctx.label("%d operations" % len(ops))
    ctx.nontrivial(len({r["op"] for r in ops}) > 1)


def many_cases(ctx):
    """Thousands of calls of one helper with ever new arguments, then the first ones again."""
    for i in range(12 if ctx.tier == "quick" else 60):
        yield {"name": SMALL_OPS[1:][i % (len(SMALL_OPS) - 1)] if i < 48 else "mix", "seed": i, "n": 1200 if ctx.tier == "quick" else 5000}


def check_many(case, ctx):
    lib = ctx.lib
    rng = random.Random("many %d" % case["seed"])
    ops = []
    for _ in range(case["n"]):
        pool = {"inst": [["Bitcoin", "mainnet"], ["Litecoin", "mainnet"], ["Dogecoin", "mainnet"]], "pass": ["a", "b"], "lots": [None, None],
                "keys": [rng.randbytes(31).rjust(32, b"\1").hex() for _ in range(2)], "salts": ["00" * 8, "11" * 8], "seeds": ["22" * 24, "33" * 24]}
        o = {"op": rng.choice(SMALL_OPS) if case["name"] == "mix" else case["name"], "i": rng.randrange(3), "n": None, "m": None, "k": rng.randrange(2),
             "p": rng.randrange(2), "q": rng.choice((None, 0, 1)), "s": rng.randrange(2), "c": rng.random() < .5, "d": rng.random() < .5, "t": 0}
        ops.append(resolve(lib, pool, o))
    ops = ops + ops[:100]

    # the same operations, each against a world of its own, in the opposite order and in another process
    def apart():
        return {"res": [World(lib).run(r) for r in reversed(ops)][::-1]}

    first = in_child(apart)
    if "crash" in first:
        ctx.fail("many operations: " + first["crash"])
    got = in_child(lambda: run_history(ctx, None, ops))
    judge(ctx, got, ops, first["res"], "many operations")
    sample = rng.sample(range(len(ops)), 6)
    for i in sample:
        want = alone(ctx, ops[i])
        if got["res"][i] != want:
            ctx.fail("many operations, operation %d (%s)" % (i, short(canon(ops[i]), 200)), want, got["res"][i])
    ctx.label(case["name"])
    ctx.nontrivial(True)


# ------------------------------------------------------------------ many large operations
CROWD = {"quick": 700, "thorough": 4000}
KINDS = ["encrypt", "decrypt", "create", "decrypt ec", "confirm", "intermediate"]


def crowd_cases(ctx):
    """Hundreds of whole operations, hardly any twice, then the first ones again."""
    n = CROWD[ctx.tier] if ctx.lib.mode == "stub" and env.CURRENT[0] is env.stub_kdf else 12
    for i in range(10 if ctx.tier == "quick" else 80):
        # of one kind, or of all
        if i < 3:
            yield {"seed": 1000 + i, "n": 3, "same": "nothing", "kind": ["decrypt", "decrypt ec", "confirm"][i], "wrong": n // 4}
        yield {"seed": i, "n": n, "same": ["nothing", "pass", "key", "salt"][i % 4 if i >= 6 else 0], "kind": KINDS[i % 10] if i % 10 < 6 else None}


def crowd_ops(lib, case):
    """[(operation, outcome by the reference)], of which one argument is often the same."""
    rng = random.Random("crowd %d" % case["seed"])
    specs = [["Bitcoin", "mainnet"], ["Bitcoin", "testnet"], ["Litecoin", "mainnet"], ["Dogecoin", "mainnet"], ["Zcash", "mainnet"]]
    specs = [s for s in specs if s[0] in coins(lib).table and s[1] in coins(lib).table[s[0]]] or [coins(lib).std[0]]
    fixed = {"pass": "the same", "key": 12345, "salt": b"the same"}
    ops = []
    for i in range(case["n"]):
        p = fixed["pass"] if case["same"] == "pass" else "passphrase %d" % rng.randrange(10 ** 9)
        k = fixed["key"] if case["same"] == "key" else rng.randrange(1, ref.N)
        key, comp, (spec, net) = k.to_bytes(32, "big"), rng.random() < .5, rng.choice(specs)
        salt = fixed["salt"] if case["same"] == "salt" else rng.randbytes(8)
        seed, lot = rng.randbytes(24), rng.choice([(None, None), (rng.randrange(100000, 1000000), rng.randrange(4096))])
        wp, ap = coins(lib).prefixes(spec, net)
        r = {"coin": spec, "home": net, "net": None, "p": p, "op": case.get("kind") or rng.choice(KINDS),
             "detail": False}
        if r["op"] in ("encrypt", "decrypt"):
            wif, code = ref.wif(key, wp, comp), ref.encrypt(key, comp, ap, p)
            if r["op"] == "encrypt":
                r.update(wif=wif)
                want = code
            else:
                r.update(code=code)
                want = wif
        elif r["op"] == "intermediate":
            r.update(lot=lot[0], seq=lot[1], salt=salt.hex())
            want = ref.intermediate(p, salt, *lot)
        else:
            inter = ref.intermediate(p, salt, *lot)
            made = ref.create(inter, seed, comp, ap)
            if r["op"] == "create":
                r.update(code=inter, type=wif_type(comp), seed=seed.hex())
                want = plain_value(made)
            elif r["op"] == "confirm":
                r.update(code=made["confirmation_code"])
                want = made["address"]
            else:
                r.update(code=made["encrypted_wif"])
                want = ref.decrypt(made["encrypted_wif"], p, wp, ap)["wif"]
        ops.append((r, ["ok", want]))
        if r["op"] in ("decrypt", "decrypt ec", "confirm") and rng.random() < .2:
            ops.append((dict(r, p=r["p"] + " not"), ["refused", "PassphraseError"]))
        if case.get("wrong"):                   # a row of wrong passphrases, then the right one
            for _ in range(case["wrong"] * (i == 1)):
                ops.append((dict(r, p="wrong %d" % rng.randrange(10 ** 9)), ["refused", "PassphraseError"]))
            ops.append(ops[-1] if i != 1 else (r, ["ok", want]))
    return ops + rng.sample(ops, min(len(ops), 40)) + ops[:40]


def check_crowd(case, ctx):
    both = crowd_ops(ctx.lib, case)
    ops = [r for r, _ in both]
    got = in_child(lambda: run_history(ctx, None, ops))
    judge(ctx, got, ops, [w for _, w in both], "many operations")
    ctx.label("crowd of %s, same: %s" % (case["kind"] or "all kinds", case["same"]))
    ctx.nontrivial()


# ------------------------------------------------------------------ objects that come and go
class Fleeting(World):
    """Nothing outlives an operation: coin classes, instances, keys and arguments are made anew, often where forgotten ones were."""

    def run(self, r):
        shown = super().run(gens.json.loads(gens.json.dumps(r)))
        self.inst.clear()
        self.pubs.clear()
        forget(coins(self.lib))
        gc.collect()
        return shown


@st.composite
def fleeting_cases(draw, lib):
    pool = draw(pools(lib))
    first = draw(gens.user_coin())
    inst = [[first, draw(st.sampled_from(sorted(first)))]]
    while len(inst) < 3:
        if draw(st.booleans()):
            spec = draw(gens.user_coin())
            inst.append([spec, draw(st.sampled_from(sorted(spec)))])
        else:
            inst.append(draw(gens.kin_coin(coins(lib), first)))
    pool["inst"] = inst
    return {"pool": pool, "ops": draw(st.lists(op_strategy(), min_size=4, max_size=14))}


def check_fleeting(case, ctx):
    ops = [resolve(ctx.lib, case["pool"], o) for o in case["ops"]]
    expected = [alone(ctx, r) for r in ops]

    def go():
        forget(coins(ctx.lib))
        gc.collect()
        gc.freeze()
        world = Fleeting(ctx.lib)
        return [world.run(r) for r in ops]

    def child():
        res, noise = quietly(go)
        return {"res": res, "noise": noise, "changed": []}

    judge(ctx, in_child(child), ops, expected, "fleeting objects")
    used = len({canon(r["coin"]) for r in ops})
    ctx.label("%d coins" % used)
    ctx.nontrivial(used > 1)


# ------------------------------------------------------------------ other processes
PLACES = [
    {"name": "hash seed 1", "env": {"PYTHONHASHSEED": "1"}}, {"name": "hash seed 2, -O", "env": {"PYTHONHASHSEED": "2"}, "args": ["-O"]},
    {"name": "-OO", "args": ["-OO"], "env": {"PYTHONHASHSEED": "3"}},
    {"name": "C locale", "env": {"LC_ALL": "C", "LANG": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "PYTHONIOENCODING": "ascii"}},
    {"name": "other directory, time zone, home and user", "env": {"TZ": "Asia/Kathmandu", "HOME": "/nonexistent", "USER": "nobody", "LANG": "tr_TR.UTF-8"}, "cwd": True},
]
NAMES = gens.ENV_NAMES
PLACES += [{"name": "%s: %s" % (", ".join(NAMES[:8]), v), "env": {t: v for t in NAMES}} for v in ("1", "testnet", "0")[:3 if NAMES else 0]]


@st.composite
def place_cases(draw, lib):
    pool = draw(pools(lib))
    return {"pool": pool, "ops": draw(st.lists(op_strategy(), min_size=20, max_size=40)), "order": draw(st.integers(0, 2**32))}


def check_places(case, ctx):
    ops = [resolve(ctx.lib, case["pool"], o) for o in case["ops"]]
    expected = [alone(ctx, r) for r in ops]
    rng = random.Random(case["order"])
    running = []
    with tempfile.TemporaryDirectory() as folder:
        for i, place in enumerate(PLACES):
            order = list(range(len(ops)))
            rng.shuffle(order)
            e = dict(os.environ, PYTHONPATH=ROOT, PYTHONDONTWRITEBYTECODE="1")
            e.update(place.get("env", {}))
            name = os.path.join(folder, "ops%d" % i)
            with open(name, "w") as f:
                gens.json.dump({"mode": ctx.lib.mode if env.CURRENT[0] is not env.real_kdf else "real", "ops": [ops[j] for j in order]}, f)
            p = subprocess.Popen([sys.executable] + place.get("args", []) + ["-m", "vlib.elsewhere", name], cwd=folder if place.get("cwd") else "/", env=e,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            running.append((place, order, p))
        for place, order, p in running:
            try:
                out, err = p.communicate(timeout=WAIT_S)
            except subprocess.TimeoutExpired:
                p.kill()
                out, err = p.communicate()
            text = out.decode("ascii", "replace")
            if p.returncode or "RESULT " not in text:
                for _, _, q in running:
                    q.kill()
                    q.communicate()
                ctx.fail("in a process of its own (%s): ended with %s, %s" % (place["name"], p.returncode, short(err.decode("utf-8", "replace")[-600:], 600)))
            noise, res = text.split("RESULT ", 1)
            res = gens.json.loads(res)
            got = {"res": [None] * len(ops), "noise": noise + err.decode("utf-8", "replace"), "changed": []}
            for j, v in zip(order, res):
                got["res"][j] = v
            judge(ctx, got, ops, expected, "in a process of its own (%s)" % place["name"])
    ctx.label("%d processes" % len(PLACES))
    ctx.nontrivial(len({r["op"] for r in ops}) > 1)


# ------------------------------------------------------------------ threads
class Schedule:
    """Lets one thread run at a time and switches between lines of the library as the random numbers say.  A thread that makes
    no progress while it has the turn (it waits for a lock another one holds) loses it."""

    def __init__(self, count, seed, p):
        self.cv = threading.Condition()
        self.rng, self.p = random.Random(seed), p
        self.alive, self.blocked = set(range(count)), set()
        self.turn, self.progress, self.switches = 0, 0, 0
        self.ids = {}
        self.prefix = os.path.join(os.path.realpath(env.REPO), "bip38") + os.sep

    def enter(self, tid):
        self.ids[threading.get_ident()] = tid
        with self.cv:
            self.wait(tid)

    def leave(self, tid):
        with self.cv:
            self.alive.discard(tid)
            if self.turn == tid:
                self.give()
            self.cv.notify_all()

    def give(self):
        others = sorted(self.alive - self.blocked) or sorted(self.alive)
        if others:
            self.turn = self.rng.choice(others)

    def wait(self, tid):
        while self.turn != tid:
            seen = self.progress
            if not self.cv.wait(0.2) and self.progress == seen and self.turn != tid:
                self.blocked.add(self.turn)
                self.turn = tid

    def point(self):
        tid = self.ids.get(threading.get_ident())
        if tid is None:
            return
        with self.cv:
            self.progress += 1
            self.blocked.discard(tid)
            if self.turn == tid:
                if self.rng.random() >= self.p:
                    return
                self.switches += 1
                self.give()
                self.cv.notify_all()
            self.wait(tid)

    def trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            return self.line
        return None

    def line(self, frame, event, arg):
        if event == "line":
            self.point()
        return self.line


@st.composite
def thread_cases(draw, lib):
    pool = draw(pools(lib))
    n = draw(st.sampled_from([2, 2, 2, 3, 4]))
    if draw(st.booleans()):         # the threads do the same kind of operation
        names = [draw(st.sampled_from(BIG_OPS))]
    else:
        names = None
    return {"pool": pool, "threads": [draw(st.lists(op_strategy(2, names), min_size=1, max_size=4)) for _ in range(n)],
            "seed": draw(st.integers(0, 2**32)), "p": draw(st.sampled_from([0.5, 0.2, 0.05, 0.05, 0.01, 0.01]))}


def run_threads(ctx, case, threads):
    lib = ctx.lib
    before = definitions(lib)

    def go():
        world = World(lib)
        for ops in threads:
            for r in ops:
                world.instance(r)
                if "pub" in r:
                    world.pub(r["pub"])
        sched = Schedule(len(threads), case["seed"], case["p"])
        results = [[None] * len(ops) for ops in threads]
        kdf = env.CURRENT[0]

        def kdf_point(*a):
            sched.point()
            v = kdf(*a)
            sched.point()
            return v

        def body(tid):
            sched.enter(tid)
            sys.settrace(sched.trace)
            try:
                for i, r in enumerate(threads[tid]):
                    results[tid][i] = world.run(r)
            finally:
                sys.settrace(None)
                sched.leave(tid)

        if kdf:
            env.CURRENT[0] = kdf_point
        ts = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(threads))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(WAIT_S)
        return [[x for ops in results for x in ops], sched.switches]

    (res, switches), noise = quietly(go)
    return {"res": res, "noise": noise, "switches": switches, "changed": [k for k, v in definitions(lib).items() if before.get(k) != v]}


def check_threads(case, ctx):
    threads = [[resolve(ctx.lib, case["pool"], o) for o in ops] for ops in case["threads"]]
    flat = [r for ops in threads for r in ops]
    expected = [alone(ctx, r) for r in flat]
    got = in_child(lambda: run_threads(ctx, case, threads))
    judge(ctx, got, flat, expected, "threads")
    ctx.label("%d threads" % len(threads))
    ctx.label("switches: 0" if not got["switches"] else "switches: under 20" if got["switches"] < 20 else "switches: 20 to 200" if got["switches"] < 200 else
              "switches: over 200")
    ctx.nontrivial(got["switches"] >= 2 * len(threads))


UNITS = [
    Unit("history", "stub", check_history, gen=history_cases, quick=900, thorough=40000, shards=3, tshards=8, fallback_quick=6),
    Unit("near", "stub", check_near, gen=near_cases, quick=1300, thorough=60000, shards=4, tshards=8, fallback_quick=4),
    Unit("threads", "stub", check_threads, gen=thread_cases, quick=600, thorough=30000, shards=3, tshards=8, fallback_quick=4),
    Unit("fleeting", "stub", check_fleeting, gen=fleeting_cases, quick=300, thorough=15000, shards=2, tshards=8, fallback_quick=3),
    Unit("long", "stub", check_long, gen=long_cases, quick=60, thorough=3000, shards=1, tshards=8, fallback_quick=1),
    Unit("many", "none", check_many, cases=many_cases, shards=1, tshards=8),
    Unit("crowd", "stub", check_crowd, cases=crowd_cases, shards=5, tshards=8),
    Unit("places", "stub", check_places, gen=place_cases, quick=9, thorough=300, shards=1, tshards=8, fallback_quick=1),
    Unit("scrypt", "real", check_history, gen=history_cases, quick=4, thorough=150, shards=1, tshards=8),
]
