"""C11: addresses are the standard P2PKH encoding and decode back."""
from checks.common import *  # noqa: F401,F403

RULE = ("encode: a public key (of a uniform, patterned or mined private key), a form, a version of one to three bytes, the "
        "Bitcoin, the Ripple or a permuted alphabet, the key given as bytes, hex or object in either form; the address is compared "
        "with the reference and decoded back. decode: base58check texts of every payload length under right and wrong "
        "versions, checksums and alphabets, and other text; accepted exactly when the reference accepts. Non-trivial: a "
        "version above 255, another alphabet, a mined key, or (decode) a text with a valid checksum.")
ASSUMPTIONS = ["vlib/ref.py", "alphabets are 58 different printable ASCII characters"]


def permuted(n):
    """The n-th of many alphabets: a deterministic shuffle."""
    import random
    pool = "".join(chr(c) for c in range(33, 127))
    return "".join(random.Random(n).sample(pool, 58))


def alphabets():
    return gens.pick((3, st.just(ref.B58)), (2, st.just(ref.RIPPLE)), (2, st.integers(0, 10**6).map(permuted)),
                     (1, st.just("123456789abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ")))


@st.composite
def encode_cases(draw, lib):
    return {"key": draw(gens.privkeys()), "compressed": draw(st.booleans()), "prefix": draw(gens.addr_prefix()), "alphabet": draw(alphabets()),
            "other": draw(gens.addr_prefix()), "defaults": draw(st.booleans())}


def check_encode(case, ctx):
    lib = ctx.lib
    pt = ref.mul_g(int.from_bytes(B(case["key"]), "big"))
    comp, prefix, alphabet = case["compressed"], case["prefix"], case["alphabet"]
    want = ref.address(pt, prefix, comp, alphabet)
    kw = {"address_prefix": prefix, "alphabet": alphabet, "public_key_type": "compressed" if comp else "uncompressed"}
    dk = {"address_prefix": prefix, "alphabet": alphabet}
    if case["defaults"]:            # leave out what is the default
        for k, v in (("address_prefix", 0), ("alphabet", ref.B58), ("public_key_type", "compressed")):
            if kw.get(k) == v:
                kw.pop(k)
                dk.pop(k, None)
                ctx.label("default used")
    forms = {"compressed bytes": ref.ser(pt), "uncompressed bytes": ref.ser(pt, False), "compressed hex": ref.ser(pt).hex(),
             "uncompressed hex": ref.ser(pt, False).hex()}
    forms["object"] = ctx.value(call(lib.PublicKey.from_bytes, ref.ser(pt, not comp)), "PublicKey.from_bytes")
    for name, pk in forms.items():
        got = ctx.value(call(lib.P2PKH.encode, pk, **kw), "P2PKHAddress.encode(%s, %r)" % (name, kw))
        ctx.same(got, want, "address of %s (given as %s), version %x" % (ref.ser(pt).hex(), name, prefix))
    # serialisations not all readers take: refused, or the same address
    u = ref.ser(pt, False)
    for name, raw in (("hybrid", bytes([6 + u[-1] % 2]) + u[1:]), ("raw coordinates", u[1:])):
        for arg in (raw, raw.hex()):
            out = call(lib.P2PKH.encode, arg, **kw)
            if out.ok:
                ctx.same(out.value, want, "address of %s (given in the %s form), version %x" % (ref.ser(pt).hex(), name, prefix))
                ctx.label("lenient form taken")
    h = ref.hash160(ref.ser(pt, comp)).hex()
    ctx.same(ctx.value(call(lib.P2PKH.decode, want, **dk), "P2PKHAddress.decode(%s, %r)" % (want, dk)), h, "decode of %s" % want)
    if case["other"] != prefix:
        ctx.refused(call(lib.P2PKH.decode, want, address_prefix=case["other"], alphabet=alphabet),
                    "decode of %s (version %x) with version %x" % (want, prefix, case["other"]), Exception)
    if prefix > 255:
        ctx.label("version over one byte")
    if alphabet != ref.B58:
        ctx.label("other alphabet")
    if h.startswith("00"):
        ctx.label("hash with leading zero byte")
    ctx.nontrivial(prefix > 255 or alphabet != ref.B58 or case["key"] in gens.MINED["keys"] or h.startswith("00"))


@st.composite
def decode_cases(draw, lib):
    prefix = draw(gens.addr_prefix())
    alphabet = draw(alphabets())
    sort = draw(st.sampled_from(["payload", "payload", "right", "version", "version", "checksum", "alphabet", "text"]))
    h = draw(gens._bytes_of(20))
    pb = ref.int_bytes(prefix)
    if sort == "payload":
        n = draw(st.one_of(st.sampled_from([0, 1, 18, 19, 20, 21, 22, 23, 24, 25, 32, 40, 40]), st.integers(0, 60)))
        text = ref.b58ce(pb + draw(gens.raw_bytes(n)), alphabet)
    elif sort == "right":
        text = ref.b58ce(pb + B(h), alphabet)
    elif sort == "version":
        other = draw(st.one_of(gens.addr_prefix(), st.sampled_from([prefix ^ 1, prefix * 256, prefix >> 8, prefix & 0xFF, prefix << 8 | 1])))
        text = ref.b58ce(ref.int_bytes(other) + B(h), alphabet)
    elif sort == "checksum":
        raw = pb + B(h)
        chk = bytearray(ref.dsha(raw)[:4])
        for k in draw(st.sets(st.integers(0, 3), min_size=1, max_size=2)):
            chk[k] ^= draw(st.integers(1, 255))
        text = ref.b58e(raw + bytes(chk), alphabet)
    elif sort == "alphabet":
        text = ref.b58ce(pb + B(h), draw(alphabets()))
    else:
        text = draw(st.one_of(gens.any_text(40), st.text(alphabet=ref.B58, max_size=40)))
    return {"prefix": prefix, "alphabet": alphabet, "text": text, "sort": sort}


def check_decode(case, ctx):
    lib = ctx.lib
    prefix, alphabet, text = case["prefix"], case["alphabet"], case["text"]
    raw = ref.b58cd(text, alphabet)
    pb = ref.int_bytes(prefix)
    want = raw[len(pb):].hex() if raw is not None and len(raw) == len(pb) + 20 and raw.startswith(pb) else None
    got = call(lib.P2PKH.decode, text, address_prefix=prefix, alphabet=alphabet)
    what = "decode of %a with version %x" % (text, prefix)
    if want is None:
        ctx.refused(got, what, Exception)
        ctx.label("refused: " + case["sort"])
    else:
        ctx.same(ctx.value(got, what), want, what)
        ctx.label("accepted: " + case["sort"])
    ctx.nontrivial(raw is not None)


UNITS = [
    Unit("encode", "none", check_encode, gen=encode_cases, quick=10000, thorough=300000, shards=5, tshards=8),
    Unit("decode", "none", check_decode, gen=decode_cases, quick=20000, thorough=600000, shards=3, tshards=8),
    related("related", "none", check_encode, encode_cases, quick=800, thorough=30000, shards=2, tshards=8),
    related("related texts", "none", check_decode, decode_cases, [("text", "sort")], quick=2000, thorough=60000, shards=2, tshards=8),
]
