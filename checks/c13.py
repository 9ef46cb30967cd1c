"""C13: Base58 is a bijection between byte strings and texts of its alphabet."""
from checks.c11 import permuted
from checks.common import *  # noqa: F401,F403

RULE = ("bytes: a byte string (empty, all zero, leading and trailing zeros, random, up to 1500 bytes) and an alphabet "
        "(Bitcoin, Ripple, permuted); encoded, compared with the reference, decoded back; the same for the checked form. texts: a "
        "text of the alphabet decoded and encoded back. foreign: texts with characters outside the alphabet and checked texts "
        "with another checksum must raise ValueError. Non-trivial: a leading zero byte or symbol, another alphabet, 40 "
        "bytes or more, or a text with exactly one fault.")
ASSUMPTIONS = ["alphabets are 58 different printable ASCII characters"]


def alphabets():
    return gens.pick((3, st.just(ref.B58)), (2, st.just(ref.RIPPLE)), (2, st.integers(0, 10**6).map(permuted)))


def byte_strings():
    edge = st.tuples(st.integers(0, 40), st.binary(max_size=40), st.integers(0, 5)).map(lambda t: bytes(t[0]) + t[1] + bytes(t[2]))
    power = st.tuples(st.integers(0, 80), st.integers(-1, 1), st.integers(1, 57)).map(
        lambda t: ref.int_bytes(max(0, t[2] * 58 ** t[0] + t[1])))
    two = st.tuples(st.integers(0, 400), st.integers(-1, 1)).map(lambda t: ref.int_bytes(max(0, (1 << t[0]) + t[1])))
    long = st.tuples(st.sampled_from([64, 100, 128, 129, 200, 255, 256, 257, 300, 500, 512, 1000, 1024, 1500]), st.binary(min_size=1, max_size=8)).map(
        lambda t: (t[1] * t[0])[:t[0]])
    return gens.pick((4, edge), (4, st.binary(max_size=60)), (2, power), (1, two), (1, long), (1, gens._nonempty(gens.HARVEST.bytes, b"")))


def check_bytes(case, ctx):
    b58 = ctx.lib.base58
    raw, alphabet = B(case["raw"]), case["alphabet"]
    args = () if alphabet == ref.B58 and case["default"] else (alphabet,)
    want = ref.b58e(raw, alphabet)
    got = ctx.value(call(b58.encode, raw, *args), "encode(%s)" % case["raw"])
    ctx.same(got, want, "encode(%s) with %s" % (case["raw"], alphabet))
    ctx.same(bytes(ctx.value(call(b58.decode, want, *args), "decode(%s)" % want)), raw, "decode(%s) with %s" % (want, alphabet))
    want = ref.b58ce(raw, alphabet)
    got = ctx.value(call(b58.check_encode, raw, *args), "check_encode(%s)" % case["raw"])
    ctx.same(got, want, "check_encode(%s) with %s" % (case["raw"], alphabet))
    ctx.same(bytes(ctx.value(call(b58.check_decode, want, *args), "check_decode(%s)" % want)), raw, "check_decode(%s) with %s" % (want, alphabet))
    if raw[:1] == b"\0":
        ctx.label("leading zero byte")
    if not raw.strip(b"\0"):
        ctx.label("empty or all zero")
    if len(raw) >= 40:
        ctx.label("40 bytes or more")
    if alphabet != ref.B58:
        ctx.label("other alphabet")
    ctx.nontrivial(raw[:1] == b"\0" or not raw or len(raw) >= 40 or alphabet != ref.B58)


@st.composite
def text_cases(draw, lib):
    alphabet = draw(alphabets())
    body = draw(st.text(alphabet=alphabet, max_size=draw(st.sampled_from([4, 12, 60, 60, 200]))))
    return {"text": alphabet[0] * draw(st.sampled_from([0, 0, 1, 2, 5, 30])) + body, "alphabet": alphabet}


def check_text(case, ctx):
    b58 = ctx.lib.base58
    text, alphabet = case["text"], case["alphabet"]
    want = ref.b58d(text, alphabet)
    got = ctx.value(call(b58.decode, text, alphabet), "decode(%s)" % text)
    ctx.same(bytes(got), want, "decode(%s) with %s" % (text, alphabet))
    ctx.same(ctx.value(call(b58.encode, got, alphabet), "encode"), text, "encode(decode(%s)) with %s" % (text, alphabet))
    out = call(b58.check_decode, text, alphabet)
    raw = ref.b58cd(text, alphabet)
    if raw is None:
        ctx.refused(out, "check_decode(%s) with %s" % (text, alphabet), ValueError)
    else:
        ctx.same(bytes(ctx.value(out, "check_decode(%s)" % text)), raw, "check_decode")
    ctx.label("text starting with the zero symbol" if text.startswith(alphabet[0]) else "other text")
    ctx.nontrivial(text.startswith(alphabet[0]) or alphabet != ref.B58 or len(text) >= 55)


@st.composite
def foreign_cases(draw, lib):
    from checks.c07 import FOREIGN, rechecksum
    alphabet = draw(alphabets())
    raw = draw(byte_strings())[:200]
    text = ref.b58ce(raw, alphabet) if draw(st.booleans()) else ref.b58e(raw, alphabet)
    if draw(st.booleans()):
        text = rechecksum(draw, ref.b58ce(raw, alphabet), alphabet)
        return {"text": text, "alphabet": alphabet, "foreign": False}
    outside = [chr(c) for c in range(0, 128) if chr(c) not in alphabet] + [c for c in FOREIGN if c not in alphabet]
    ch = draw(st.sampled_from(outside))
    i = draw(st.integers(0, len(text)))
    sort = draw(st.sampled_from(["insert", "replace", "replace", "ends", "only", "alias"]))
    if sort == "insert":
        text = text[:i] + ch + text[i:]
    elif sort == "replace" and text:
        i = min(i, len(text) - 1)
        text = text[:i] + ch + text[i + 1:]
    elif sort == "ends":
        text = draw(st.sampled_from([ch + text, text + ch]))
    elif sort == "alias":
        k = text.find(alphabet[57])
        if k > 0 and alphabet.index(text[k - 1]) < 57:
            text = text[:k - 1] + alphabet[alphabet.index(text[k - 1]) + 1] + ch + text[k + 1:]
        else:
            text = ch + text
    else:
        text = ch * draw(st.integers(1, 5))
    return {"text": text, "alphabet": alphabet, "foreign": True}


def check_foreign(case, ctx):
    b58 = ctx.lib.base58
    text, alphabet = case["text"], case["alphabet"]
    if not case["foreign"]:
        raw = ref.b58cd(text, alphabet)
        out = call(b58.check_decode, text, alphabet)
        if raw is None:
            ctx.refused(out, "check_decode(%s) with %s" % (text, alphabet), ValueError)
            ctx.label("wrong checksum")
            ctx.nontrivial(True)
        return
    if all(c in alphabet for c in text):
        return
    args = () if alphabet == ref.B58 else (alphabet,)
    ctx.refused(call(b58.decode, text, *args), "decode(%a) with %s" % (text, alphabet), ValueError)
    ctx.refused(call(b58.check_decode, text, *args), "check_decode(%a) with %s" % (text, alphabet), ValueError)
    n = sum(c not in alphabet for c in text)
    ctx.label("one foreign character" if n == 1 else "several foreign characters")
    ctx.nontrivial(n == 1)


TAILS = ["", "01", "39", "3a", "ff", "0100", "ffff", "01000000", "deadbeef", "80" * 9, "00ff" * 30, "ff" * 64]


def grid(ctx):
    """Every number of leading zeros before a few tails, and every length."""
    top = 400 if ctx.tier == "quick" else 2100
    for z in range(top):
        for i, t in enumerate(TAILS):
            yield {"raw": "00" * z + t, "alphabet": ref.B58 if (z + i) % 3 else ref.RIPPLE, "default": i % 2 == 0}
        yield {"raw": "%02x" % (z % 255 + 1) + "5a" * z, "alphabet": ref.B58, "default": True}


UNITS = [
    Unit("grid", "none", check_bytes, cases=grid, shards=4, tshards=8),
    Unit("bytes", "none", check_bytes, quick=24000, thorough=800000, shards=4, tshards=8,
         gen=lambda lib: st.fixed_dictionaries({"raw": byte_strings().map(bytes.hex), "alphabet": alphabets(), "default": st.booleans()})),
    Unit("texts", "none", check_text, gen=text_cases, quick=16000, thorough=500000, shards=2, tshards=8),
    Unit("foreign", "none", check_foreign, gen=foreign_cases, quick=16000, thorough=500000, shards=2, tshards=8),
    related("related bytes", "none", check_bytes, lambda lib: st.fixed_dictionaries({"raw": byte_strings().map(bytes.hex), "alphabet": alphabets(), "default": st.booleans()}),
            quick=2000, thorough=60000, shards=2, tshards=8),
]
