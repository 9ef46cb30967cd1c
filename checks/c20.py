"""C20: byte, integer and hex conversions are exact inverses."""
from checks.common import *  # noqa: F401,F403

RULE = ("bytes: byte strings of 0 to 600 bytes (with zero bytes at the ends, made of hex digits, of one repeated byte) through every "
        "conversion and back. integers: integers of up to 4800 bits, many at powers of two, with every kind of width. text: any text as "
        "hexadecimal or UTF-8. small: every integer below 70000 and its neighbourhood of powers of two, in all widths up to 10. "
        "Non-trivial: at least two bytes, or an integer of more than 8 bits, or a non-empty text.")
ASSUMPTIONS = ["Python's int.to_bytes, int.from_bytes and bytes.hex", "a width of 0 counts as no width, as documented"]


def byte_strings():
    size = st.sampled_from(list(range(0, 40)) * 2 + [48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 600])
    zero = st.tuples(st.integers(0, 5), st.binary(max_size=30), st.integers(0, 5)).map(lambda t: bytes(t[0]) + t[1] + bytes(t[2]))
    digits = st.text("0123456789abcdefABCDEF", max_size=40).map(str.encode)
    wide = st.sampled_from([16, 32, 40, 48, 64, 66, 128, 130, 256]).flatmap(gens.raw_bytes)
    return gens.pick((3, size.flatmap(lambda n: st.binary(min_size=n, max_size=n))), (2, zero), (2, digits), (2, wide), (1, gens._nonempty(gens.HARVEST.bytes, b"\1")),
                     (1, st.tuples(st.integers(0, 255), size).map(lambda t: bytes([t[0]]) * t[1])),
                     (1, gens.any_text(20).map(str.encode))).map(bytes.hex)


def check_bytes(case, ctx):
    u, b = ctx.lib.utils, B(case["b"])
    say = "%d bytes %s: " % (len(b), short(b.hex(), 60))
    for fn, arg, want in [("get_bytes", b, b), ("get_bytes", b.hex(), b), ("get_bytes", b.hex().upper(), b), ("bytes_to_string", b, b.hex()),
                          ("bytes_reverse", b, b[::-1])]:
        ctx.same(ctx.value(call(getattr(u, fn), arg), fn + " of " + say), want, fn + " of " + say)
    ctx.same(ctx.value(call(u.get_bytes, b, False), say + "get_bytes"), b, say + "get_bytes of bytes, not unhexlifying")
    ctx.same(ctx.value(call(u.get_bytes, u.bytes_to_string(b)), say), b, say + "bytes_to_string and back")
    ctx.same(ctx.value(call(u.bytes_reverse, u.bytes_reverse(b)), say), b, say + "reversed twice")
    ctx.same(ctx.value(call(u.bytes_to_string, b.hex()), say), b.hex(), say + "bytes_to_string of its hex")
    for end in ("big", "little"):
        for signed in (False, True):
            n = ctx.value(call(u.bytes_to_integer, b, end, signed), say + "bytes_to_integer")
            ctx.same(n, int.from_bytes(b, end, signed=signed), say + "bytes_to_integer %s%s" % (end, " signed" if signed else ""))
            if b:
                back = ctx.value(call(u.integer_to_bytes, n, len(b), end, signed), say + "integer_to_bytes")
                ctx.same(back, b, say + "to an integer and back, %s%s" % (end, " signed" if signed else ""))
    ctx.same(ctx.value(call(u.bytes_to_integer, b), say), int.from_bytes(b, "big"), say + "bytes_to_integer")
    ctx.label("no bytes" if not b else "a zero byte in front" if b[:1] == b"\0" else "hex digits" if all(chr(c) in "0123456789abcdefABCDEF" for c in b) else "other")
    ctx.nontrivial(len(b) > 1)


@st.composite
def integers(draw, lib=None):
    n = draw(gens.pick((2, st.integers(0, 600)), (3, st.integers(0, 4800).flatmap(lambda k: st.integers(-2, 2).map(lambda d: max(0, (1 << k) + d)))),
                       (3, st.integers(0, 2**80)), (2, st.binary(min_size=1, max_size=64).map(lambda b: int.from_bytes(b, "big"))),
                       (2, gens._nonempty(sorted(n for n in gens.HARVEST.ints if n >= 0), 1))))
    need = max(1, (n.bit_length() + 7) // 8)
    width = draw(st.one_of(st.none(), st.integers(1, need + 3), st.integers(max(1, need - 2), need + 2), st.sampled_from([1, 2, 4, 8, 16, 20, 32, 33, 64])))
    return {"n": str(n), "neg": draw(st.sampled_from([False, False, True])), "width": width, "end": draw(st.sampled_from(["big", "little", None])),
            "signed": draw(st.sampled_from([False, False, True]))}


def check_integer(case, ctx):
    u = ctx.lib.utils
    n, width, signed = int(case["n"]), case["width"], case["signed"]
    if case["neg"] and width:
        n = -n
    end = case["end"] or "big"
    say = "integer_to_bytes(%s, %s, %s%s)" % (short(str(n), 40), width, end, ", signed" if signed else "")
    kw = {k: v for k, v in (("bytes_num", width), ("endianness", case["end"])) if v is not None}
    if signed:
        kw["signed"] = True
    out = call(u.integer_to_bytes, n, **kw)
    if width is None:
        if signed and not out.ok:
            ctx.refused(out, say, OverflowError)
            ctx.label("signed without a width")
            return
        if signed:
            ctx.same(int.from_bytes(ctx.value(out, say), end, signed=True), n, say + " and back")
            return
        want = n.to_bytes(max(1, (n.bit_length() + 7) // 8), end)
        ctx.same(ctx.value(out, say), want, say + ": the minimal width")
        ctx.label("minimal width")
    else:
        ok = call(n.to_bytes, width, end, signed=signed)
        if not ok.ok:
            ctx.refused(out, say, OverflowError)
            ctx.label("width too small" if n >= 0 else "refused negative")
            ctx.nontrivial()
            return
        want = ok.value
        ctx.same(ctx.value(out, say), want, say)
        ctx.label("width given" if n >= 0 else "negative")
    ctx.same(ctx.value(call(u.bytes_to_integer, want, end, signed), say), n, say + " and back")
    ctx.same(ctx.value(call(u.integer_to_bytes, n, width, end, signed), say), want, say + " by position")
    ctx.nontrivial(abs(n) > 255)


def small(ctx):
    top = 70000 if ctx.tier == "quick" else 1 << 20
    for start in range(0, top, 500):
        yield {"from": start, "to": min(top, start + 500)}


def check_small(case, ctx):
    u = ctx.lib.utils
    for n in range(case["from"], case["to"]):
        for end in ("big", "little"):
            b = n.to_bytes(1 if n < 256 else 2 if n < 65536 else 3, end)
            got = u.integer_to_bytes(n, endianness=end)
            if got != b:
                ctx.fail("integer_to_bytes(%d, endianness=%r)" % (n, end), b, got)
            if u.bytes_to_integer(b, end) != n:
                ctx.fail("bytes_to_integer(%r, %r)" % (b, end), n, u.bytes_to_integer(b, end))
    n = case["from"]
    for width in range(1, 11):
        check_integer({"n": str(n), "neg": False, "width": width, "end": "big", "signed": False}, ctx)
    ctx.nontrivial(True)


def texts(lib):
    return st.fixed_dictionaries({"t": gens.pick((3, gens.any_text(30)), (2, st.text("0123456789abcdefABCDEFgx", max_size=20)), (1, gens.combining_text()),
                                                 (1, st.tuples(st.sampled_from([8, 16, 32, 33, 65]).flatmap(lambda n: st.binary(min_size=n, max_size=n)), st.booleans()).map(
                                                      lambda t: t[0].hex() if t[1] else t[0].hex().upper())),
                                                 (1, st.sampled_from(gens.SPECIAL_TEXT))).map(gens._clean)})


def check_text(case, ctx):
    u, t = ctx.lib.utils, case["t"]
    say = "%r: " % short(t, 60)
    ctx.same(ctx.value(call(u.get_bytes, t, unhexlify=False), say + "get_bytes"), t.encode(), say + "get_bytes as UTF-8")
    bare = all(c in "0123456789abcdefABCDEF" for c in t)
    if bare and len(t) % 2 == 0:
        want = bytes.fromhex(t)
        ctx.same(ctx.value(call(u.get_bytes, t), say + "get_bytes"), want, say + "get_bytes as hexadecimal")
        got = ctx.value(call(u.bytes_to_string, t), say + "bytes_to_string")
        ctx.want(isinstance(got, str) and got.lower() == t.lower(), say + "bytes_to_string", t, got)
        ctx.label("hexadecimal")
    elif t and not any(c.isspace() for c in t):
        ctx.refused(call(u.get_bytes, t), say + "get_bytes as hexadecimal", ValueError)
        ctx.same(ctx.value(call(u.bytes_to_string, t), say + "bytes_to_string"), t.encode().hex(), say + "bytes_to_string of a text")
        ctx.label("not hexadecimal")
    ctx.nontrivial(bool(t))


UNITS = [
    Unit("small", "none", check_small, cases=small, shards=2, tshards=4),
    Unit("bytes", "none", check_bytes, gen=lambda lib: st.fixed_dictionaries({"b": byte_strings()}), quick=12000, thorough=400000, shards=2, tshards=6),
    Unit("integers", "none", check_integer, gen=integers, quick=20000, thorough=600000, shards=2, tshards=6),
    Unit("text", "none", check_text, gen=texts, quick=8000, thorough=200000, shards=1, tshards=4),
    related("related integers", "none", check_integer, integers, quick=2000, thorough=60000, shards=2, tshards=8),
]
