"""C14: hash functions are the standard ones, with and without OpenSSL RIPEMD-160."""
import hashlib

from checks.common import *  # noqa: F401,F403

RULE = ("lengths: every message length from 0 to 600 bytes with four fillings, hashed by all functions with the platform's and "
        "with the bundled RIPEMD-160 (run with OpenSSL's hidden). messages: random messages up to 5000 bytes, as bytes and as hex, "
        "and lengths around powers of two up to 2 MB (thorough: 16 MB). related: messages that share all but a byte, or a half, hashed in turn. whole: codes and addresses on a platform without OpenSSL's "
        "RIPEMD-160. Non-trivial: a message of more than 55 bytes, or within 9 bytes of a multiple of 64.")
ASSUMPTIONS = ["hashlib's SHA-256 and RIPEMD-160 are right (where OpenSSL lacks the latter, vlib/ref.py's, checked on published vectors, is used)"]


def check_message(case, ctx):
    lib = ctx.lib
    m = bytes.fromhex(case["fill"])
    n = case["len"]
    m = (m * (n // max(1, len(m)) + 1))[:n] if m else bytes(n)
    c = lib.crypto
    r = ref.rmd(m)
    s = hashlib.sha256(m).digest()
    d = hashlib.sha256(s).digest()
    want = {"ripemd160": r, "sha256": s, "double_sha256": d, "get_checksum": d[:4], "hash160": ref.rmd(s)}
    arg = m.hex() if case["hex"] == 1 else m.hex().upper() if case["hex"] == 2 else m
    for name, v in want.items():
        got = ctx.value(call(getattr(c, name), arg), "%s of %d bytes" % (name, n))
        ctx.same(got, v, "%s of %d bytes%s" % (name, n, " given as hex" if case["hex"] else ""))
    got = ctx.value(call(lib.ripemd160.ripemd160, m), "bundled ripemd160")
    ctx.same(bytes(got), r, "bundled ripemd160 of %d bytes" % n)
    ctx.label("hex" if case["hex"] else "bytes")
    ctx.label("over one block" if n > 55 else "one block")
    ctx.nontrivial(n > 55 or n % 64 in range(55, 64))


def every_length(ctx):
    top = 600 if ctx.tier == "quick" else 3000
    for n in range(top + 1):
        for i, fill in enumerate(("00", "ff", "80", hashlib.sha512(b"%d" % n).hexdigest())):
            yield {"len": n, "fill": fill, "hex": (n + i) % 3}


def messages(lib):
    size = gens.pick((5, st.integers(0, 700)), (2, st.integers(1, 80).flatmap(lambda k: st.integers(64 * k - 10, 64 * k + 2))), (1, st.integers(0, 5000)),
                     (1, gens._nonempty([n for n in gens.HARVEST.lengths if n < 5000], 64)))
    return st.fixed_dictionaries({"len": size, "fill": st.binary(min_size=1, max_size=40).map(bytes.hex), "hex": st.sampled_from([0, 0, 1, 2])})


def big(ctx):
    for i, n in enumerate([8191, 8192, 8193, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 1 << 21] + ([1 << 20, (1 << 20) + 7, 1 << 24] if ctx.tier != "quick" else [])):
        yield {"len": n, "fill": hashlib.sha256(b"big %d" % i).hexdigest(), "hex": i % 2 if n < 1 << 20 else 0}


def check_fill(case, ctx):
    """Random content rather than a repeated filling."""
    case = dict(case, len=len(case["raw"]) // 2, fill=case["raw"])
    check_message(case, ctx)


@st.composite
def whole_cases(draw, lib):
    case = draw(plain_cases(lib, stub=False))
    case.update({k: v for k, v in draw(ec_cases(lib, stub=False)).items() if k in ("salt", "lot", "seq", "seeds")})
    return case


def check_whole(case, ctx):
    """Whole operations give the platform independent result (compared with the reference)."""
    lib = ctx.lib
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    one, kw = instance(lib, case["coin"], case["net"], case["per_call"])
    key, comp, p = B(case["key"]), case["compressed"], case["pass"]
    w = ref.wif(key, wp, comp)
    enc = ref.encrypt(key, comp, ap, p)
    ctx.same(ctx.value(call(one.encrypt, w, p, **kw), "encrypt"), enc, "encrypt without OpenSSL's RIPEMD-160")
    ctx.same(ctx.value(call(one.decrypt, enc, p, **kw), "decrypt"), w, "decrypt without OpenSSL's RIPEMD-160")
    inter = ref.intermediate(p, B(case["salt"]), case["lot"], case["seq"])
    want = ref.create(inter, B(case["seeds"][0]), comp, ap)
    same_detail(ctx, ctx.value(call(one.create_new_encrypted_wif, inter, wif_type(comp), case["seeds"][0], **kw), "create"), want,
                "create without OpenSSL's RIPEMD-160")
    pt = ref.mul_g(int.from_bytes(key, "big"))
    ctx.same(ctx.value(call(lib.P2PKH.encode, ref.ser(pt), address_prefix=ap), "address"), ref.address(pt, ap, True), "address without OpenSSL's RIPEMD-160")
    ctx.nontrivial(True)


SIZES = st.sampled_from(list(range(0, 140)) * 2 + list(range(140, 400)))
RAW = st.fixed_dictionaries({"raw": SIZES.flatmap(lambda n: gens.pick((2, st.binary(min_size=n, max_size=n)), (1, gens.raw_bytes(n)))).map(bytes.hex), "hex": st.sampled_from([0, 0, 1, 2])})
UNITS = [
    Unit("big", "none", check_message, cases=big, shards=2),
    Unit("big, bundled", "none", check_message, cases=big, shards=2, no_native_rmd=True),
    Unit("lengths", "none", check_message, cases=every_length, shards=2, tshards=4),
    Unit("lengths, bundled", "none", check_message, cases=every_length, shards=2, tshards=4, no_native_rmd=True),
    Unit("messages", "none", check_message, gen=messages, quick=3500, thorough=150000, shards=1, tshards=4),
    Unit("messages, bundled", "none", check_message, gen=messages, quick=3500, thorough=150000, shards=1, tshards=4, no_native_rmd=True),
    Unit("content", "none", check_fill, gen=lambda lib: RAW, quick=3500, thorough=200000, shards=1, tshards=4),
    Unit("content, bundled", "none", check_fill, gen=lambda lib: RAW, quick=3500, thorough=200000, shards=1, tshards=4, no_native_rmd=True),
    Unit("whole, bundled", "stub", check_whole, gen=whole_cases, quick=1500, thorough=30000, shards=2, tshards=4, no_native_rmd=True),
    related("related", "none", check_fill, lambda lib: RAW, quick=1500, thorough=60000, shards=1, tshards=4),
    related("related, bundled", "none", check_fill, lambda lib: RAW, quick=1500, thorough=60000, shards=1, tshards=4, no_native_rmd=True),
]
