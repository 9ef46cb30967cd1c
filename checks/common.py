"""Pieces several checks share."""
from hypothesis import strategies as st

from vlib import env, gens, ref
from vlib.core import Out, Unit, Violation, call, canon, short  # noqa: F401

B = bytes.fromhex
_COINS = {}
_MADE = {}


def coins(lib):
    if id(lib) not in _COINS:
        _COINS[id(lib)] = gens.Coins(lib)
    return _COINS[id(lib)]


def forget(known):
    """Lets go of the classes and instances of user defined coins."""
    known.cache.clear()
    _MADE.clear()


def bip(lib, spec, net):
    """An instance for this coin and network; the constructor must accept it."""
    c = coins(lib)
    key = id(lib), id(c.cls(spec)), net
    if env.reuse_instances and key in _MADE:
        return _MADE[key]
    out = call(lib.BIP38, cryptocurrency=c.cls(spec), network=net)
    if not out.ok:
        raise Violation("BIP38(%s, %r) %r" % (spec, net, out))
    if env.reuse_instances:
        _MADE[key] = out.value
    return out.value


def instance(lib, spec, net, per_call):
    """(instance, keyword arguments): the network chosen at construction or per call."""
    if not per_call:
        return bip(lib, spec, net), {}
    nets = list(coins(lib).table[spec]) if isinstance(spec, str) else list(spec)
    other = [n for n in nets if n != net]
    return bip(lib, spec, other[per_call % len(other)] if other else net), {"network": net}


PER_CALL = st.sampled_from([0, 0, 1, 2])


def label_pass(ctx, p):
    if not p:
        ctx.label("passphrase: empty")
    elif p.isascii():
        ctx.label("passphrase: ASCII")
    else:
        ctx.label("passphrase: non-ASCII")
    n = len(p.encode("utf-8", "surrogatepass"))
    if n > 64:
        ctx.label("passphrase: over 64 bytes")
    if gens.unicodedata.normalize("NFC", p) != p:
        ctx.label("passphrase: NFC changes it")
    if "\0" in p:
        ctx.label("passphrase: NUL inside")
    if p != p.strip():
        ctx.label("passphrase: space at an end")


def label_coin(ctx, spec, net, ap):
    ctx.label("coin: user defined" if not isinstance(spec, str) else "coin: Bitcoin" if spec == "Bitcoin" else "coin: other")
    if ap > 255:
        ctx.label("coin: address version over one byte")
    if net != "mainnet":
        ctx.label("coin: network not mainnet")


# ------------------------------------------------------------------ generated cases of the plain mode
@st.composite
def plain_cases(draw, lib, own_alphabet=False, custom=True, stub=True, per_call=True):
    spec, net = draw(gens.coin_net(coins(lib), own_alphabet, custom))
    key = draw(gens.privkeys())
    p = draw(gens.passphrases())
    if stub and draw(st.integers(0, 9)) < 3:
        p = draw(steered_plain(key, p))
    return {"coin": spec, "net": net, "per_call": per_call and draw(PER_CALL), "key": key,
            "compressed": draw(st.booleans()), "pass": p}


@st.composite
def steered_plain(draw, key, p):
    """A passphrase for which a block to be encrypted (key XOR KDF output), or the KDF output, begins or ends
    with zero bytes."""
    kb = B(key)
    mask = bytearray(draw(st.binary(min_size=32, max_size=32)))
    kind = draw(st.integers(0, 5))
    n = draw(st.integers(1, 16))
    if kind == 0:
        mask[:n] = bytes(n)
    elif kind == 1:
        mask[16:16 + n] = bytes(n)
    elif kind == 2:
        mask[:n] = bytes(n)
        mask[16:16 + n] = bytes(n)
    elif kind == 3:
        mask[16 - n:16] = bytes(n)
    elif kind == 4:
        mask[32 - n:] = bytes(n)
    over = bytes(a ^ b for a, b in zip(kb, mask)) if kind < 5 else bytes(mask[:16 - n])
    if kind == 5:                                  # the KDF output itself
        out = bytearray(draw(st.binary(min_size=64, max_size=64)))
        at = draw(st.sampled_from([0, 16, 32, 48, 32 - n, 64 - n]))
        out[at:at + n] = bytes(n)
        over = bytes(out)
    return env.steer_password(p, over)


def plain_expected(lib, case):
    spec, net = case["coin"], case["net"]
    wp, ap = coins(lib).prefixes(spec, net)
    key = B(case["key"])
    pt = ref.mul_g(int.from_bytes(key, "big"))
    comp = case["compressed"]
    addr = {ref.address(pt, ap, comp)}
    if isinstance(spec, str) and spec in coins(lib).own_alphabet:
        addr.add(ref.address(pt, ap, comp, coins(lib).cls(spec).ALPHABET))
    return dict(wif=ref.wif(key, wp, comp), private_key=key.hex(), wif_type="wif-compressed" if comp else "wif",
                public_key=ref.ser(pt, comp).hex(), public_key_type="compressed" if comp else "uncompressed",
                seed=None, address=addr, lot=None, sequence=None)


def same_detail(ctx, got, want, what):
    ctx.want(isinstance(got, dict), what + ": the detail is no dictionary", dict, got)
    for k, v in want.items():
        if k not in got:
            ctx.fail("%s: no %r in the detail" % (what, k))
        if isinstance(v, set):
            ctx.want(got[k] in v, "%s: wrong %r" % (what, k), sorted(v), got[k])
        else:
            ctx.want(type(got[k]) is type(v) and got[k] == v, "%s: wrong %r" % (what, k), v, got[k])


# ------------------------------------------------------------------ generated cases of the EC-multiply mode
@st.composite
def ec_cases(draw, lib, custom=True, stub=True, max_seeds=1, own_alphabet=False):
    spec, net = draw(gens.coin_net(coins(lib), own_alphabet, custom))
    p = draw(gens.passphrases())
    lot = seq = None
    if draw(st.integers(0, 9)) < 5:
        lot, seq = draw(gens.lots()), draw(gens.sequences())
    salt = draw(gens.salts4(stub)) if lot is not None and draw(st.booleans()) else draw(gens.salts8(stub))
    seeds = draw(st.lists(gens.seeds(), min_size=1, max_size=max_seeds, unique=True))
    if stub and lot is None and draw(st.integers(0, 9)) < 3:
        b = int.from_bytes(ref.dsha(B(seeds[0])), "big") % ref.N
        t = draw(st.one_of(st.integers(1, 70000), st.integers(0, 255).map(lambda i: 1 << i),
                           st.integers(1, 300).map(lambda i: ref.N - i)))
        kind = draw(st.integers(0, 2))
        f = t * pow(b, -1, ref.N) % ref.N if kind else t % ref.N
        p = env.steer_password(p, (f or 1).to_bytes(32, "big"))
    return {"coin": spec, "net": net, "per_call": draw(PER_CALL), "pass": p, "salt": salt, "lot": lot, "seq": seq,
            "seeds": seeds, "compressed": draw(st.booleans())}


def wif_type(compressed):
    return "wif-compressed" if compressed else "wif"


def label_ec(ctx, case):
    label_pass(ctx, case["pass"])
    label_coin(ctx, case["coin"], case["net"], coins(ctx.lib).prefixes(case["coin"], case["net"])[1])
    if case["lot"] is None:
        ctx.label("no lot and sequence")
    else:
        ctx.label("lot and sequence, %d byte salt" % (len(case["salt"]) // 2))
        if case["seq"] == 0:
            ctx.label("sequence 0")
    if case["salt"].startswith(env.SALT_MARK.hex()):
        ctx.label("steered second KDF")
    if env.PW_MARK_TEXT in case["pass"]:
        ctx.label("steered pass factor")
    ctx.label("compressed" if case["compressed"] else "uncompressed")


def owner_args(case, form="hex"):
    k = {"owner_salt": case["salt"] if form == "hex" else B(case["salt"])}
    if case["lot"] is not None:
        k.update(lot=case["lot"], sequence=case["seq"])
    return k


# ------------------------------------------------------------------ values easily taken for one another
@st.composite
def akin_bytes(draw, hexed):
    """Another byte string of the same length that differs from this one in a single place, or in a half of it."""
    b = bytearray(B(hexed))
    n = len(b)
    kind = draw(st.integers(0, 4))
    if kind < 3:
        b[draw(st.sampled_from([0, n - 1, n // 2, n // 2 - 1, draw(st.integers(0, n - 1))]))] ^= 1 << draw(st.integers(0, 7))
    elif kind == 3:
        b[:n // 2] = draw(st.binary(min_size=n // 2, max_size=n // 2))
    else:
        b[n - n // 2:] = draw(st.binary(min_size=n // 2, max_size=n // 2))
    return bytes(b).hex()


@st.composite
def akin_text(draw, p):
    """A passphrase easily taken for this one."""
    i = draw(st.integers(0, len(p)))
    u = gens.unicodedata
    return draw(st.sampled_from([
        p + "x", p + "y" * 40, p + " ", " " + p, "y" * 70 + p, p[:i] + "x" + p[i:], p[:i] + "y" + p[i + 1:], p[:-1], p[1:], p.swapcase(), p[::-1],
        u.normalize("NFD", p), u.normalize("NFKC", p), p + "\u0301", p.strip(), p * 2]))


def akin_key(k):
    return akin_bytes(k).map(lambda h: k if not 0 < int(h, 16) < ref.N else h)


@st.composite
def near_hash(draw, ah):
    """Other four bytes, which looser comparisons take for these."""
    i, j = draw(st.permutations(range(4)))[:2]
    m, n = draw(st.integers(1, 255)), int.from_bytes(ah, "big")

    def changed(*new):
        res = bytearray(ah)
        for k, v in new:
            res[k] = v & 255
        return bytes(res)

    h = ah.hex()
    digits = [h.lstrip("0"), h.rstrip("0"), h.strip("0")]
    ways = [ah.swapcase(), ah.lower(), ah.upper(), ah.title(), *[B(d.ljust(8, "0")) for d in digits], *[B(d.rjust(8, "0")) for d in digits],
            ah.lstrip(b"\0").ljust(4, b"\0"), ah.rstrip(b"\0").rjust(4, b"\0"), ah.strip().rjust(4), ah.strip().ljust(4),
            ah[::-1], ah[2:] + ah[:2], ah[1::-1] + ah[:1:-1], ah[1:] + ah[:1], bytes(sorted(ah)), B(h[1:] + h[0]), B(h[::-1]),
            changed((i, ah[j]), (j, ah[i])), changed((i, ah[i] + m), (j, ah[j] - m)), changed((i, ah[i] ^ m), (j, ah[j] ^ m)),
            ah[1:] + b"\0", b"\0" + ah[:3], b"\0" + ah[1:], ah[:3] + b"\0", ah[:3] + bytes([m ^ ah[3]]), bytes([m ^ ah[0]]) + ah[1:],
            bytes([ah[0] ^ 0x80]) + ah[1:], bytes(b & 127 for b in ah), bytes(b ^ 255 for b in ah), bytes(-b & 255 for b in ah), ah[:2] + bytes([m ^ ah[2], ah[3]]),
            ((n + 1) % 2**32).to_bytes(4, "big"), ((n - 1) % 2**32).to_bytes(4, "big"), (-n % 2**32).to_bytes(4, "big"), (n ^ 2**31).to_bytes(4, "big"),
            ah[:2] + bytes([ah[0] ^ 1, ah[1]]), bytes([ah[0]]) * 4]
    # the ways that do change it, those that seldom do coming first
    real = sorted({w for w in ways if w != ah}, key=ways.index)
    seldom = [w for w in real if w.lower() == ah.lower() or w.hex().strip("0") == h.strip("0")]
    return draw(st.sampled_from(seldom if seldom and draw(st.integers(0, 2)) == 0 else real))


def near(case, field):
    """A strategy of values for this field close to the one it has, or None."""
    v = case.get(field)
    if field == "pass" and isinstance(v, str):
        return akin_text(v).map(gens._clean)
    if field in ("key", "salt", "seed") and isinstance(v, str) and len(v) in (8, 16, 48, 64):
        return akin_key(v) if len(v) == 64 else akin_bytes(v)
    if field == "raw" and v:
        return akin_bytes(v)
    if field == "seeds" and v:
        return akin_bytes(v[0]).map(lambda x: [x])
    return None


# ------------------------------------------------------------------ histories of related cases
@st.composite
def _related(draw, gen, joint):
    a, b = draw(gen), draw(gen)
    groups = [list(g) for g in joint]
    groups += [[k] for k in sorted(set(a) | set(b)) if not any(k in g for g in groups)]
    groups = [g for g in groups if any(canon(a.get(k)) != canon(b.get(k)) for k in g)]
    steps = [a]
    if isinstance(a.get("pass"), str) and draw(st.integers(0, 3)) == 0:
        x, y = map(gens._clean, draw(gens.loose_pairs()))
        a["pass"] = x
        steps.append(dict(a, **{"pass": y}))
    for _ in range(draw(st.integers(1, 3))):
        c = dict(a)
        for g in draw(st.lists(st.sampled_from(groups), min_size=1, max_size=draw(st.sampled_from([1, 1, 2, 3])))) if groups else []:
            for k in g:
                c.pop(k, None)
                if k in b:
                    c[k] = b[k]
                close = near(a, k) if len(g) == 1 or k == "salt" and len(str(a.get(k))) == len(str(b.get(k))) else None
                if close is not None and draw(st.booleans()):
                    c[k] = draw(close)
        steps.append(c)
    return {"steps": steps + [a] if draw(st.booleans()) else steps}


def related(name, mode, check, gen, joint=(), **kw):
    """A unit of histories: a case, then the same with one or a few of its parts exchanged, then perhaps the first again.
    What is remembered from one call, and keyed by too little, shows in the next."""
    def run(case, ctx):
        for c in case["steps"]:
            check(c, ctx)
        ctx.label("%d calls" % len(case["steps"]))
        ctx.nontrivial(len({canon(c) for c in case["steps"]}) > 1)
    return Unit(name, mode, run, gen=lambda lib: _related(gen(lib), joint), **kw)
