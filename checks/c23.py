"""C23: each operation accepts codes of its own kind and layout only."""
import base64

from checks import c08
from checks.common import *  # noqa: F401,F403

RULE = ("kinds: one code of every kind (encrypted keys of both modes and key forms, confirmation and intermediate codes with and without lot, WIFs and "
        "addresses), all made from the same secrets, and every operation given each code that is not of its kind, and its own code in another spelling. "
        "layout: a code of the right kind made again consistently (encryption, address hash, checksum and passphrase fit) under a prefix, magic, "
        "length, plain mode flag or point form that the format does not define. All must be refused, in part of the cases after the genuine code was "
        "used. Non-trivial: the checksum is right.")
ASSUMPTIONS = ["flags of EC-multiplied keys and of confirmation codes with reserved bits set may be accepted (C08 says what is returned then)",
               "vlib/ref.py for the codes", "chance agreements of 32 bit hashes are neglected"]
MADE = ["plain", "ec", "confirm", "inter"]


def family(kind):
    return kind.split(",")[0]


@st.composite
def base_cases(draw, lib, stub):
    case = draw(ec_cases(lib, stub=stub))
    case["key"] = draw(gens.privkeys())
    case["first"] = draw(st.booleans())
    return case


def all_codes(case, wp, ap):
    """{kind: code}, all from the same secrets."""
    p, key, seed = case["pass"], B(case["key"]), B(case["seeds"][0])
    res = {}
    for lot in (False, True):
        word = "with lot" if lot else "without lot"
        salt = B(case["salt"]) if len(case["salt"]) == 16 or lot else B(case["salt"]) * 2
        inter = ref.intermediate(p, salt, *((case["lot"] or 123456, case["seq"] or 7) if lot else (None, None)))
        res["inter, " + word] = inter
        made = ref.create(inter, seed, case["compressed"], ap)
        res["ec, " + word], res["confirm, " + word] = made["encrypted_wif"], made["confirmation_code"]
    pt = ref.mul_g(int.from_bytes(key, "big"))
    for comp in (False, True):
        word = "compressed" if comp else "uncompressed"
        res["plain, " + word] = ref.encrypt(key, comp, ap, p)
        res["wif, " + word] = ref.wif(key, wp, comp)
        res["address, " + word] = ref.address(pt, ap, comp)
    return res


def operations(lib, case):
    """{(operation, family it takes): function of the code}."""
    spec, net, p = case["coin"], case["net"], case["pass"]
    wp, ap = coins(lib).prefixes(spec, net)
    cls = coins(lib).cls(spec)
    one, kw = instance(lib, spec, net, case["per_call"])
    t, w = wif_type(case["compressed"]), lib.wif
    return {
        ("decrypt", "plain ec"): lambda c: one.decrypt(c, p, **kw),
        ("decrypt with detail", "plain ec"): lambda c: one.decrypt(c, p, detail=True, **kw),
        ("confirm_code", "confirm"): lambda c: one.confirm_code(p, c, **kw),
        ("confirm_code with detail", "confirm"): lambda c: one.confirm_code(p, c, detail=True, **kw),
        ("create_new_encrypted_wif", "inter"): lambda c: one.create_new_encrypted_wif(c, t, case["seeds"][0], **kw),
        ("create_new_encrypted_wif without seed", "inter"): lambda c: one.create_new_encrypted_wif(c, t, **kw),
        ("encrypt", "wif"): lambda c: one.encrypt(c, p, **kw),
        ("decode_wif", "wif"): lambda c: w.decode_wif(c, wp),
        ("wif_to_private_key", "wif"): lambda c: w.wif_to_private_key(c, cls, net),
        ("get_wif_type", "wif"): lambda c: w.get_wif_type(c, cls, net),
        ("get_wif_checksum", "wif"): lambda c: w.get_wif_checksum(c, cls, net),
        ("P2PKHAddress.decode", "address"): lambda c: lib.P2PKH.decode(c, address_prefix=ap),
    }


# ---------------------------------------------------------------- codes of another kind
def spellings(code):
    raw = ref.b58d(code)
    n = int.from_bytes(raw, "big")
    yield "the other alphabet", ref.b58e(raw, ref.RIPPLE)
    yield "hexadecimal", raw.hex()
    yield "hexadecimal without checksum", raw[:-4].hex()
    yield "Base64", base64.b64encode(raw).decode()
    yield "decimal", str(n)
    yield "no checksum", ref.b58e(raw[:-4])
    yield "reversed bytes", ref.b58e(raw[::-1])
    yield "reversed", code[::-1]
    yield "two checksums", ref.b58ce(raw)
    yield "a URI", "bitcoin:" + code
    yield "quotes", '"%s"' % code
    yield "a byte order mark", "\ufeff" + code
    yield "blank", " %s" % code
    yield "newline", code + "\n"
    yield "twice", code + code
    yield "two codes in one", ref.b58ce(raw[:-4] * 2)


def kind_cases(lib, stub):
    return base_cases(lib, stub)


def check_kinds(case, ctx):
    lib = ctx.lib
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    codes = all_codes(case, wp, ap)
    for (op, takes), run in operations(lib, case).items():
        if case["first"]:
            for kind, code in codes.items():
                if family(kind) in takes.split():
                    ctx.value(call(run, code), "%s of a genuine code (%s) %s" % (op, kind, code))
        for kind, code in codes.items():
            if family(kind) not in takes.split():
                ctx.refused(call(run, code), "%s given another kind of code (%s) %s" % (op, kind, code), Exception)
            else:
                for how, text in spellings(code):
                    if text != code:
                        ctx.refused(call(run, text), "%s given %s as %s: %a" % (op, kind, how, text), Exception)
    ctx.label("after the genuine codes" if case["first"] else "alone")
    ctx.nontrivial(True)


# ---------------------------------------------------------------- another layout
@st.composite
def other_bytes(draw, old, known):
    """Bytes in the place of a prefix that are none of those known."""
    n = int.from_bytes(old, "big")
    size = len(old)
    bit = draw(st.integers(0, 8 * size - 1))
    k = draw(st.integers(0, size - 1))
    ways = [(n ^ 1 << bit).to_bytes(size, "big")] * 4 + [((n + d) % 256**size).to_bytes(size, "big") for d in (1, -1, 2, 3)] + [
        old[::-1], bytes(size), b"\xff" * size, old[1:] + old[:1], old[:-1] + b"\0", b"\0" + old[1:], old[:k] + bytes([draw(st.integers(0, 255))]) + old[k + 1:],
        draw(st.binary(min_size=size, max_size=size)), old[:k] + draw(st.binary(min_size=size - k, max_size=size - k))]
    new = draw(st.sampled_from(ways))
    return new if new not in known else bytes([old[0] ^ 0x40]) + old[1:]


@st.composite
def resized(draw, raw, point_at=None):
    """The payload with another length."""
    k = draw(st.integers(1, 4))
    ways = [raw + bytes(k), raw + draw(st.binary(min_size=k, max_size=k)), raw + b"\x01", raw + bytes(16), bytes(k) + raw, raw[:-k], raw[k:], raw + raw, raw[:-1] + raw[-1:] * (k + 1),
            raw + draw(st.binary(min_size=16, max_size=16)), raw + ref.dsha(raw)[:4]]
    i = draw(st.integers(0, len(raw) - 1))
    ways += [raw[:i] + raw[i + k:], raw[:i] + bytes(k) + raw[i:]]
    return draw(st.sampled_from(ways))


KNOWN = {"plain": [b"\x01\x42"], "ec": [b"\x01\x43"], "confirm": [ref.CFRM], "inter": [ref.MAGIC_LOT, ref.MAGIC_NOLOT]}


@st.composite
def layout_cases(draw, lib, stub):
    case = draw(base_cases(lib, stub))
    kind = draw(st.sampled_from(MADE))
    case["kind"] = kind
    _wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    if kind == "inter":
        raw = ref.b58cd(ref.intermediate(case["pass"], B(case["salt"]), case["lot"], case["seq"]))
    else:
        raw = c08.genuine(case, ap)
    case["genuine"] = ref.b58ce(raw)
    how = draw(st.sampled_from({"plain": ["prefix", "flag", "flag", "length", "length"], "ec": ["prefix", "length"], "confirm": ["prefix", "length", "sign"],
                                "inter": ["prefix", "length", "point", "point"]}[kind]))
    if how == "prefix":
        n = len(KNOWN[kind][0])
        new = draw(other_bytes(raw[:n], KNOWN[kind]))
        raw = new + raw[n:]
    elif how == "flag":
        # the flag is under no encryption: what it stands for is drawn
        flag = draw(st.one_of(st.integers(0, 255), st.sampled_from([0xC0 ^ 1 << i for i in range(8)] + [0xE0 ^ 1 << i for i in range(8)] + [0xC4, 0xE4, 0xE8, 0x20, 0])))
        if flag in (0xC0, 0xE0):
            flag ^= draw(st.sampled_from([1, 2, 4, 8, 16, 64, 128, 192]))
        other = dict(case, compressed=draw(st.sampled_from([bool(flag & 0x20), bool(flag & 0x20), not flag & 0x20])))
        case["genuine"] = ref.b58ce(c08.genuine(other, ap))
        raw = c08.genuine(other, ap, flag=flag)
    elif how == "length":
        raw = draw(resized(raw))
    elif how == "sign":
        at = 18
        wrong = draw(st.integers(0, 255).filter(lambda v: v not in (raw[at], raw[at] ^ 1)))
        raw = raw[:at] + bytes([wrong]) + raw[at + 1:]
    else:
        pt = ref.parse_pub(raw[16:])
        x, y = pt[0].to_bytes(32, "big"), pt[1].to_bytes(32, "big")
        flip = bytes([raw[16] ^ 1])
        off = next(x2 for x2 in range(pt[0] + 1, pt[0] + 200) if ref.parse_pub(b"\2" + x2.to_bytes(32, "big")) is None)
        new = draw(st.sampled_from([b"\4" + x + y, x + y, bytes([6 | raw[16] & 1]) + x + y, bytes([6 | flip[0] & 1]) + x + y, bytes([raw[16] ^ draw(st.sampled_from([4, 6, 1 << 7, 2]))]) + x,
                                    bytes([raw[16]]) + off.to_bytes(32, "big"), x, x + raw[16:17], bytes([raw[16]]) + x[::-1] if ref.parse_pub(b"\2" + x[::-1]) is None else x,
                                    b"\0", b"\0" * 33, raw[16:] + b"\0", b"\0" + raw[16:], b"\2" + ref.P.to_bytes(32, "big"), b"\2" + b"\xff" * 32, b"\4" + x + ref.P.to_bytes(32, "big"),
                                    b"\2" + (pt[0] + ref.P).to_bytes(33, "big")[-32:] if pt[0] + ref.P < 2**256 else b"\5" + x]))
        raw = raw[:16] + new
    case["how"] = how
    case["raw"] = raw.hex()
    return case


def check_layout(case, ctx):
    lib, kind = ctx.lib, case["kind"]
    raw = B(case["raw"])
    code = ref.b58ce(raw)
    for (op, takes), run in operations(lib, case).items():
        if case["first"] and kind in takes.split():
            ctx.value(call(run, case["genuine"]), "%s of the genuine code %s" % (op, case["genuine"]))
        if code != case["genuine"]:
            ctx.refused(call(run, code), "%s given %s with another %s: %s" % (op, kind, case["how"], case["raw"]), Exception)
    ctx.label("%s: %s" % (kind, case["how"]))
    ctx.label("after the genuine code" if case["first"] else "alone")
    ctx.nontrivial(code != case["genuine"])


def every_prefix(ctx):
    """All single bit changes of every prefix and magic, all plain flags, all lengths near the right ones."""
    base = {"coin": "Bitcoin", "net": "mainnet", "per_call": False, "pass": "p", "compressed": True, "seeds": ["99241d58245c883896f80843d2846672d7312e6195ca1a6c"],
            "key": "cbf4b9f70470856bb4f40f80b87edb90865997ffee6df315ab166d713af433a5", "salt": "75ed1cdeb254cb38", "lot": None, "seq": None, "first": False}
    for kind in MADE:
        for lot in (None, 199999):
            case = dict(base, kind=kind, lot=lot, seq=None if lot is None else 1)
            raw = ref.b58cd(ref.intermediate("p", B(base["salt"]), lot, case["seq"])) if kind == "inter" else c08.genuine(case, 0)
            case["genuine"] = ref.b58ce(raw)
            n = len(KNOWN[kind][0])
            for i in range(8 * n):
                new = (int.from_bytes(raw[:n], "big") ^ 1 << i).to_bytes(n, "big")
                if new not in KNOWN[kind]:
                    yield dict(case, how="prefix", raw=(new + raw[n:]).hex())
            for k in list(range(1, 20)) + [32, 64]:
                yield dict(case, how="length", raw=(raw + bytes(k)).hex())
                yield dict(case, how="length", raw=(bytes(k) + raw).hex())
                yield dict(case, how="length", raw=(raw + raw[-k:]).hex())
                yield dict(case, how="length", raw=raw[:-k].hex())
                yield dict(case, how="length", raw=raw[k:].hex())
            if kind == "plain" and lot is None:
                for comp in (False, True):
                    for flag in range(256):
                        if flag not in (0xC0, 0xE0):
                            yield dict(case, how="flag", raw=c08.genuine(dict(case, compressed=comp), 0, flag=flag).hex())
            if kind == "confirm":
                for v in range(256):
                    if v not in (raw[18], raw[18] ^ 1):
                        yield dict(case, how="sign", raw=(raw[:18] + bytes([v]) + raw[19:]).hex())


UNITS = [
    Unit("kinds", "stub", check_kinds, gen=lambda lib: kind_cases(lib, True), quick=700, thorough=40000, shards=3, tshards=8),
    Unit("layout", "stub", check_layout, gen=lambda lib: layout_cases(lib, True), quick=5000, thorough=300000, shards=3, tshards=8),
    Unit("every layout", "stub", check_layout, cases=every_prefix, shards=2, tshards=4),
    Unit("scrypt", "real", check_kinds, gen=lambda lib: kind_cases(lib, False), quick=3, thorough=100, shards=1, tshards=8),
]
