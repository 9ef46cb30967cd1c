"""C08: a payload that does not match its address hash is never vouched for."""
from checks.common import *  # noqa: F401,F403

RULE = ("A case is a payload with a correct checksum: (forged) a key or seed encrypted consistently under an address hash "
        "that differs from the right one in one to four bytes, or looks like it (by case, order, sum or some of its bytes), or belongs to the other key form or another coin's version; "
        "(field) a genuine payload with flag, address hash, entropy or encrypted bytes changed; (splice) fields of two genuine "
        "payloads exchanged; (random) random bytes behind a valid prefix. In half of the cases after use of the genuine code, it is decrypted or confirmed with the passphrase "
        "that fits. Forged, changed and spliced payloads must be refused; anything returned must match the recorded address "
        "hash and be consistent. Non-trivial: all but random payloads.")
ASSUMPTIONS = ["changes of reserved flag bits may be accepted, if what is returned fits the address hash",
               "chance agreements of 32 bit address hashes are neglected"]


# ---------------------------------------------------------------- making payloads under any address hash
def seal_plain(key, flag, ah, p):
    d = ref.kdf(ref.norm(p), ah, 16384, 8, 8, 64)
    return (b"\x01\x42" + bytes([flag]) + ah + ref.aes_enc(d[32:], ref.xor(key[:16], d[:16]))
            + ref.aes_enc(d[32:], ref.xor(key[16:], d[16:32])))


def seal_ec(f, seed, flag, ah, entropy):
    d = ref.kdf(ref.ser(ref.mul_g(f)), ah + entropy, 1024, 1, 1, 64)
    e1 = ref.aes_enc(d[32:], ref.xor(seed[:16], d[:16]))
    return (b"\x01\x43" + bytes([flag]) + ah + entropy + e1[:8]
            + ref.aes_enc(d[32:], ref.xor(e1[8:] + seed[16:], d[16:32])))


def seal_confirm(f, b, flag, ah, entropy):
    d = ref.kdf(ref.ser(ref.mul_g(f)), ah + entropy, 1024, 1, 1, 64)
    pb = ref.ser(ref.mul_g(b))
    return (ref.CFRM + bytes([flag]) + ah + entropy + bytes([pb[0] ^ (d[63] & 1)]) + ref.aes_enc(d[32:], ref.xor(pb[1:17], d[:16]))
            + ref.aes_enc(d[32:], ref.xor(pb[17:], d[16:32])))


def secrets(case):
    """(pass factor, entropy, factor b) of an EC-multiplied case."""
    f, entropy, _ = ref.owner(case["pass"], B(case["salt"]), case["lot"], case["seq"])
    return f, entropy, int.from_bytes(ref.dsha(B(case["seeds"][0])), "big")


def genuine(case, ap, ah=None, flag=None):
    """The payload of this case, with its own or the given address hash and flag."""
    comp = case["compressed"]
    if case["kind"] == "plain":
        pt = ref.mul_g(int.from_bytes(B(case["key"]), "big"))
        ah = ah or ref.dsha(ref.address(pt, ap, comp).encode())[:4]
        return seal_plain(B(case["key"]), (0xE0 if comp else 0xC0) if flag is None else flag, ah, case["pass"])
    f, entropy, b = secrets(case)
    ah = ah or ref.dsha(ref.address(ref.mul_g(f * b), ap, comp).encode())[:4]
    if flag is None:
        flag = (4 if case["lot"] is not None else 0) | (0x20 if comp else 0)
    if case["kind"] == "ec":
        return seal_ec(f, B(case["seeds"][0]), flag, ah, entropy)
    return seal_confirm(f, b, flag, ah, entropy)


def fields(kind):
    """(name, start, end) of the payload's fields."""
    if kind == "plain":
        return [("prefix", 0, 2), ("flag", 2, 3), ("hash", 3, 7), ("half 1", 7, 23), ("half 2", 23, 39)]
    if kind == "ec":
        return [("prefix", 0, 2), ("flag", 2, 3), ("hash", 3, 7), ("salt", 7, 11), ("lot", 11, 15), ("half 1", 15, 23), ("half 2", 23, 39)]
    return [("prefix", 0, 5), ("flag", 5, 6), ("hash", 6, 10), ("salt", 10, 14), ("lot", 14, 18), ("sign", 18, 19), ("x 1", 19, 35), ("x 2", 35, 51)]


@st.composite
def bit_or_bytes(draw, old):
    """A different value for these bytes."""
    if draw(st.booleans()):
        k = draw(st.integers(0, len(old) - 1))
        new = old[:k] + bytes([old[k] ^ (1 << draw(st.integers(0, 7)))]) + old[k + 1:]
    else:
        new = draw(st.binary(min_size=len(old), max_size=len(old)))
    return new if new != old else bytes([old[0] ^ 1]) + old[1:]


@st.composite
def cases(draw, lib, stub):
    kind = draw(st.sampled_from(["plain", "ec", "confirm"]))
    case = draw(plain_cases(lib, stub=False) if kind == "plain" else ec_cases(lib, stub=stub))
    case["kind"] = kind
    how = draw(st.sampled_from(["forged", "forged", "forged", "field", "field", "field", "splice", "random"]))
    _wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    comp = case["compressed"]
    raw = genuine(case, ap)
    base = 5 if kind == "confirm" else 2
    if how == "forged":
        if kind == "plain":
            pt = ref.mul_g(int.from_bytes(B(case["key"]), "big"))
        else:
            f, _e, b = secrets(case)
            pt = ref.mul_g(f * b)
        ah = raw[base + 1:base + 5]
        sort = draw(st.sampled_from(["byte", "byte", "near", "near", "near", "form", "version", "random", "point"]))
        if sort == "byte":
            bad = bytearray(ah)
            for k in draw(st.sets(st.integers(0, 3), min_size=1, max_size=3)):
                bad[k] ^= draw(st.integers(1, 255))
            bad = bytes(bad)
        elif sort == "form":
            bad = ref.dsha(ref.address(pt, ap, not comp).encode())[:4]
        elif sort == "version":
            bad = ref.dsha(ref.address(pt, ap + 1, comp).encode())[:4]
        elif sort == "point":
            bad = draw(st.sampled_from([bytes(4), ref.dsha(ref.ser(pt, comp))[:4], ref.hash160(ref.ser(pt, comp))[:4],
                                        ref.sha256(ref.address(pt, ap, comp).encode())[:4],
                                        ref.dsha(ref.address(pt, ap, comp).encode())[4:8],
                                        ref.dsha(ref.address(ref.neg(pt), ap, comp).encode())[:4]]))
        elif sort == "near":
            bad = draw(near_hash(ah))
        else:
            bad = draw(st.binary(min_size=4, max_size=4))
        if bad == ah:
            bad = bytes([ah[0] ^ 1]) + ah[1:]
        case["field"] = "hash: " + sort
        raw = genuine(case, ap, ah=bad)
    elif how == "field":
        name, a, b = draw(st.sampled_from(fields(kind)))
        if name == "flag":
            new = bytes([raw[a] ^ draw(st.sampled_from([0x20, 0x20, 0x20, 0x04, 0x24, 0x08, 0x10, 0x40, 0x80, 0xC0, 0x28, 0x30, 0x01, 0x02]))])
            if draw(st.booleans()):        # the code's maker set the flag before encrypting
                raw = genuine(case, ap, flag=new[0])
        else:
            new = draw(bit_or_bytes(raw[a:b]))
        case["field"] = name
        raw = raw[:a] + new + raw[b:]
    elif how == "splice":
        other = dict(case)
        mix = draw(st.sampled_from(["seed", "form", "all"]))
        if mix != "form":
            if kind == "plain":
                other["key"] = draw(gens.privkeys())
            else:
                other["seeds"] = [draw(gens.seeds())]
        if mix != "seed":
            other["compressed"] = not comp
        raw2 = genuine(other, ap)
        chosen = draw(st.sets(st.sampled_from([f[0] for f in fields(kind)][1:]), min_size=1, max_size=4))
        out = b"".join((raw2 if name in chosen else raw)[a:b] for name, a, b in fields(kind))
        if out in (raw, raw2):
            how = "random"        # nothing exchanged: only consistency is required
        case["field"] = "+".join(sorted(chosen))
        raw = out
    else:
        n = len(raw)
        keep = draw(st.integers(base, base + 1))
        flag = draw(st.sampled_from([0xC0, 0xE0, 0x00, 0x04, 0x20, 0x24, 0x28, 0x2C, 0x34, 0x08, 0xFF]))
        body = draw(st.binary(min_size=n - base - 1, max_size=n - base - 1))
        raw = raw[:base] + (raw[base:base + 1] if keep > base else bytes([flag])) + body
    case["how"] = how
    case["raw"] = raw.hex()
    case["first"] = draw(st.booleans())
    return case


def check(case, ctx):
    lib = ctx.lib
    spec, net, how, kind = case["coin"], case["net"], case["how"], case["kind"]
    wp, ap = coins(lib).prefixes(spec, net)
    raw = B(case["raw"])
    code = ref.b58ce(raw)
    one, kw = instance(lib, spec, net, case["per_call"])
    base = 5 if kind == "confirm" else 2
    flag, ah = raw[base], raw[base + 1:base + 5]
    strict = how in ("forged", "splice") or (how == "field" and (case["field"] not in ("flag", "prefix") or (
        case["field"] == "flag" and (raw[base] ^ genuine(case, ap)[base]) & 0x24)))
    if case.get("first"):
        own = ref.b58ce(genuine(case, ap))
        ctx.value(call(one.confirm_code, case["pass"], own, **kw) if kind == "confirm" else call(one.decrypt, own, case["pass"], **kw), "the genuine code %s" % own)
        ctx.label("after use of the genuine code")
    if case.get("field") == "flag" and (raw[base] ^ genuine(case, ap)[base]) & 0x24 == 0x04:
        strict = False            # another owner salt: refused but for chance; consistency says so too
    for detail in (True, False):
        if kind == "confirm":
            out = call(one.confirm_code, case["pass"], code, detail=detail, **kw)
        else:
            out = call(one.decrypt, code, case["pass"], detail=detail, **kw)
        what = "%s payload %s (%s %s) " % (kind, case["raw"], how, case.get("field", ""))
        if not out.ok:
            ctx.label("refused: " + how)
            continue
        ctx.label("accepted: " + how)
        ctx.want(not strict, what + "is vouched for", "a refusal", out.value)
        if detail:
            verify_detail(ctx, out.value, kind, raw, ah, wp, ap, what)
        elif kind == "confirm":
            ctx.want(ref.dsha(out.value.encode())[:4] == ah, what + "gives an address with another address hash", ah.hex(), out.value)
        else:
            w = ref.wif_parse(out.value, wp)
            ctx.want(w is not None, what + "gives no valid WIF", None, out.value)
            pt = ref.mul_g(int.from_bytes(w[0], "big"))
            ctx.want(ref.dsha(ref.address(pt, ap, w[1]).encode())[:4] == ah, what + "gives a WIF with another address hash", ah.hex(), out.value)
    ctx.label("%s: %s" % (how, case.get("field", "") if how != "splice" else kind))
    ctx.nontrivial(how != "random")


def verify_detail(ctx, d, kind, raw, ah, wp, ap, what):
    comp = d["public_key_type"] == "compressed"
    pub = bytes.fromhex(d["public_key"])
    ctx.want(len(pub) == (33 if comp else 65) and ref.parse_pub(pub) is not None, what + "gives an inconsistent public key", None, d)
    pt = ref.parse_pub(pub)
    ctx.want(d["address"] == ref.address(pt, ap, comp), what + "gives an address that is not its public key's", ref.address(pt, ap, comp), d)
    ctx.want(ref.dsha(d["address"].encode())[:4] == ah, what + "gives an address with another address hash", ah.hex(), d)
    if kind != "confirm":
        key = bytes.fromhex(d["private_key"])
        ctx.want(len(key) == 32 and ref.mul_g(int.from_bytes(key, "big")) == pt, what + "gives inconsistent keys", None, d)
        ctx.want(d["wif"] == ref.wif(key, wp, comp) and d["wif_type"] == wif_type(comp), what + "gives an inconsistent WIF", None, d)
    if d["lot"] is not None:
        at = 14 if kind == "confirm" else 11
        ls = int.from_bytes(raw[at:at + 4], "big")
        ctx.want((d["lot"], d["sequence"]) == (ls >> 12, ls & 4095), what + "gives another lot and sequence", (ls >> 12, ls & 4095), d)


UNITS = [
    Unit("stub", "stub", check, gen=lambda lib: cases(lib, True), quick=14000, thorough=400000, shards=6, tshards=8),
    Unit("scrypt", "real", check, gen=lambda lib: cases(lib, False), quick=50, thorough=3000, shards=2, tshards=8),
]
