"""C12: keys and points follow the secp256k1 group."""
from checks.common import *  # noqa: F401,F403

RULE = ("keys: a scalar (uniform, 1.., n-1.., patterned, mined) and every derivation, serialisation and parsing of its private "
        "key, public key and point. group: two scalars (also equal, opposite, and of points with the same y); sums (also P+P and sums of sums) and multiples by scalars, both operand "
        "orders, against the reference, whenever the result is not infinity. refusals: byte strings and coordinates that are "
        "no encoding (lengths, prefixes, x without a y, y off the curve, values at or above p, keys 0, n and above). "
        "Non-trivial: a patterned or mined scalar, a coordinate with a zero byte at an end, P+P, or a refusal of the right length.")
ASSUMPTIONS = ["vlib/ref.py", "hybrid encodings (06, 07) and 64 byte raw points may be accepted when they are right",
               "results at the point at infinity are outside the domain"]


def point_of(lib, ctx, pt, how):
    """The point as a library object, reached in one of several ways."""
    x, y = pt
    if how == 0:
        return ctx.value(call(lib.Point.from_coordinates, x, y), "Point.from_coordinates")
    if how == 1:
        return ctx.value(call(lib.Point.from_bytes, ref.ser(pt)), "Point.from_bytes compressed")
    if how == 2:
        return ctx.value(call(lib.Point.from_bytes, ref.ser(pt, False)), "Point.from_bytes uncompressed")
    if how == 3:
        return ctx.value(call(lib.Point.from_bytes, ref.ser(pt, False)[1:]), "Point.from_bytes raw")
    return ctx.value(call(lambda: lib.PublicKey.from_bytes(ref.ser(pt)).point()), "PublicKey.from_bytes().point()")


def same_point(ctx, obj, pt, what):
    x, y = pt[0].to_bytes(32, "big"), pt[1].to_bytes(32, "big")
    ctx.same(int(obj.x()), pt[0], what + ": x")
    ctx.same(int(obj.y()), pt[1], what + ": y")
    ctx.same(bytes(obj.raw_encoded()), ref.ser(pt), what + ": raw_encoded")
    ctx.same(bytes(obj.raw_decoded()), x + y, what + ": raw_decoded")
    ctx.same(bytes(obj.raw()), x + y, what + ": raw")


def same_public(ctx, lib, pk, pt, what):
    c, u = ref.ser(pt), ref.ser(pt, False)
    ctx.same(bytes(pk.raw_compressed()), c, what + ": raw_compressed")
    ctx.same(bytes(pk.raw_uncompressed()), u, what + ": raw_uncompressed")
    ctx.same(bytes(pk.raw("compressed")), c, what + ": raw('compressed')")
    ctx.same(bytes(pk.raw("uncompressed")), u, what + ": raw('uncompressed')")
    same_point(ctx, pk.point(), pt, what + ": point")


def check_keys(case, ctx):
    lib = ctx.lib
    kb = B(case["key"])
    pt = ref.mul_g(int.from_bytes(kb, "big"))
    c, u = ref.ser(pt), ref.ser(pt, False)
    priv = ctx.value(call(lib.PrivateKey.from_bytes, kb), "PrivateKey.from_bytes(%s)" % case["key"])
    ctx.same(bytes(priv.raw()), kb, "PrivateKey.raw")
    same_public(ctx, lib, ctx.value(call(priv.public_key), "public_key"), pt, "public key of %s" % case["key"])
    for name, b in (("compressed", c), ("uncompressed", u)):
        pk = ctx.value(call(lib.PublicKey.from_bytes, b), "PublicKey.from_bytes(%s)" % b.hex())
        same_public(ctx, lib, pk, pt, "PublicKey.from_bytes(%s)" % b.hex())
    for how in range(5):
        p = point_of(lib, ctx, pt, how)
        same_point(ctx, p, pt, "point %s made in way %d" % (c.hex(), how))
        pk = ctx.value(call(lib.PublicKey.from_point, p), "PublicKey.from_point")
        same_public(ctx, lib, pk, pt, "PublicKey.from_point of %s made in way %d" % (c.hex(), how))
    ctx.want((lib.PublicKey.compressed_length(), lib.PublicKey.uncompressed_length(), lib.PrivateKey.length()) == (33, 65, 32), "lengths")
    odd = kb[0] == 0 or case["key"] in gens.MINED["keys"] or 0 in (c[1], c[-1], u[33], u[-1])
    if 0 in (c[1], u[33]):
        ctx.label("coordinate with a leading zero byte")
    ctx.label("odd y" if pt[1] & 1 else "even y")
    ctx.nontrivial(odd)


def scalars():
    return gens.pick((3, gens.privkeys().map(lambda h: int(h, 16))), (2, st.integers(1, 40)), (1, st.integers(1, 40).map(lambda i: ref.N - i)),
                     (1, st.integers(1, 2**256 - 1)), (1, st.integers(0, 255).map(lambda i: 1 << i)),
                     (1, st.sampled_from([0, ref.N, 2 * ref.N])), (1, st.integers(-3, 40).map(lambda i: ref.N + i)), (1, st.integers(-40, -1)),
                     (1, st.integers(1, 2**256).map(lambda i: -i)), (1, st.integers(2**256, 2**260)))


LAMBDA = 0x5363ad4cc05c30e0a5261c028812645a122e22ea20816678df02967c1b23bd72      # a cube root of 1 modulo n
assert pow(LAMBDA, 3, ref.N) == 1 and ref.mul_g(LAMBDA)[1] == ref.mul_g(1)[1]


@st.composite
def group_cases(draw, lib):
    a, b = draw(gens.privkeys()), draw(gens.privkeys())
    rel = draw(st.sampled_from(["any", "any", "any", "same", "near", "double", "opposite", "halves", "same y"]))
    if rel == "same":
        b = a
    elif rel == "near":
        b = gens._h32(int(a, 16) + draw(st.integers(-3, 3)))
    elif rel == "double":
        b = gens._h32(2 * int(a, 16) % ref.N)
    elif rel == "opposite":
        b = gens._h32(ref.N - int(a, 16))
    elif rel == "same y":       # the endomorphism of the curve: (x, y) to (beta x, y); with the opposite also (beta x, -y)
        b = gens._h32(int(a, 16) * LAMBDA ** draw(st.integers(1, 2)) * draw(st.sampled_from([1, 1, -1])) % ref.N)
    elif rel == "halves":        # P + Q + P is the identity, or Q = -2 P
        b = gens._h32(-2 * int(a, 16) % ref.N)
    return {"a": a, "b": b, "k": str(draw(scalars())), "how": draw(st.tuples(st.integers(0, 4), st.integers(0, 4)))}


def identity(ctx, out, what):
    """The identity has no coordinates: the result may be refused, or have none, but is no point of the curve."""
    if out.ok:
        x = call(lambda: (int(out.value.x()), int(out.value.y())))
        ctx.want(not (x.ok and ref.on_curve(*x.value)), what + ": expected the identity", None, x.value)
    ctx.label("identity")


def agree(ctx, out, want, what, lenient=False):
    if want is None:
        identity(ctx, out, what)
    elif out.ok or not lenient:
        same_point(ctx, ctx.value(out, what), want, what)


def check_group(case, ctx):
    lib = ctx.lib
    a, b, k = int(case["a"], 16), int(case["b"], 16), int(case["k"])
    pa, pb = ref.mul_g(a), ref.mul_g(b)
    A, Bp = point_of(lib, ctx, pa, case["how"][0]), point_of(lib, ctx, pb, case["how"][1])
    s = ref.mul_g(a + b)
    for what, out in (("P + Q", call(lambda: A + Bp)), ("Q + P", call(lambda: Bp + A)), ("P.__radd__(Q)", call(lambda: A.__radd__(Bp)))):
        agree(ctx, out, s, "%s for %x and %x" % (what, a, b))
    if a == b:
        ctx.label("P + P")
    agree(ctx, call(lambda: (A + Bp) + A), ref.mul_g(2 * a + b), "(P + Q) + P for %x and %x" % (a, b), lenient=s is None)
    # a scalar that is not among 1..n-1 may be refused, but not mistaken
    odd = not 0 < k < ref.N
    m = ref.mul_g(a * k)
    for what, out in (("P * k", call(lambda: A * k)), ("k * P", call(lambda: k * A))):
        agree(ctx, out, m, "%s for P = %x G, k = %d" % (what, a, k), lenient=odd)
    agree(ctx, call(lambda: A * k + Bp), ref.mul_g(a * k + b), "P * k + Q for %x, %x, k = %d" % (a, b, k), lenient=odd)
    if odd:
        ctx.label("scalar below 1" if k < 1 else "scalar not below n")
    if not odd:
        if s is not None:
            d = ref.mul_g((a + b) * k)
            same_point(ctx, ctx.value(call(lambda: (A + Bp) * k), "(P + Q) * k"), d, "(P + Q) * k for %x, %x, k = %d" % (a, b, k))
            pk = ctx.value(call(lib.PublicKey.from_point, (A + Bp) * k), "from_point of a product")
            same_public(ctx, lib, pk, d, "PublicKey.from_point((P + Q) * k)")
        g = call(lambda: lib.secp256k1.Secp256k1.GENERATOR * k)
        same_point(ctx, ctx.value(g, "GENERATOR * k"), ref.mul_g(k), "GENERATOR * %d" % k)
    same_point(ctx, A, pa, "P after the operations")
    same_point(ctx, Bp, pb, "Q after the operations")
    ctx.nontrivial(a == b or k < 100 or k > ref.N - 100 or a < 1000 or case["a"] in gens.MINED["keys"] or case["b"] in gens.MINED["keys"])


@st.composite
def refusal_cases(draw, lib):
    kind = draw(st.sampled_from(["pub", "pub", "pub", "point", "coord", "priv", "priv"]))
    pt = ref.mul_g(int(draw(gens.privkeys()), 16))
    x, y = (v.to_bytes(32, "big") for v in pt)
    if kind == "priv":
        b = draw(st.one_of(
            st.sampled_from([0, ref.N, ref.N + 1, ref.P, ref.P - 1, 2**256 - 1, 2**256 - 2]).map(lambda n: n.to_bytes(32, "big")),
            st.integers(ref.N, 2**256 - 1).map(lambda n: n.to_bytes(32, "big")),
            st.binary(max_size=70), st.integers(0, 70).map(lambda n: b"\x01" * n), st.just(bytes(31) + b"\x01\0"),
            st.sampled_from([31, 33, 64, 64, 66]).flatmap(gens.raw_bytes), st.just(x.hex().encode()), st.just(x.hex().upper().encode())))
        return {"kind": kind, "raw": b.hex()}
    if kind == "coord":
        cx, cy = draw(st.sampled_from([(pt[0], pt[1] ^ 1), (pt[0] ^ 1, pt[1]), (pt[1], pt[0]), (0, 0), (pt[0], 0), (0, pt[1]), (1, 1), (pt[0], pt[1] + 1),
                                       (pt[0] + ref.P, pt[1]), (pt[0], pt[1] + ref.P), (ref.P, ref.P), (pt[0], pt[1] - ref.P), (-1, 1), (2**256, 7)]))
        return {"kind": kind, "x": str(cx), "y": str(cy)}
    r = draw(st.binary(min_size=32, max_size=32))
    form = draw(st.integers(0, 18))
    b = [
        lambda: bytes([draw(st.integers(0, 255))]) + x, lambda: bytes([draw(st.integers(0, 255))]) + x + y,
        lambda: b"\x02" + r, lambda: b"\x03" + r, lambda: b"\x04" + r + y, lambda: b"\x04" + x + r, lambda: b"\x04" + y + x,
        lambda: b"\x04" + x + (ref.P - pt[1] ^ 1).to_bytes(32, "big"), lambda: x + y[:31], lambda: b"\x04" + x + y[:31], lambda: b"\x02" + x[:31],
        lambda: b"\x02" + x + b"\0", lambda: draw(st.binary(max_size=70)), lambda: b"\x04" * 65,
        lambda: bytes([draw(st.sampled_from([2, 3]))]) + draw(st.integers(ref.P, 2**256 - 1)).to_bytes(32, "big"),
        lambda: b"\x04" + draw(st.sampled_from([bytes(64), b"\xff" * 64, x + bytes(32), bytes(32) + y])),
        lambda: ref.ser(pt, False).hex().encode(), lambda: ref.ser(pt).hex().encode(), lambda: (x + y).hex().encode(),
    ][form]()
    return {"kind": kind, "raw": b.hex()}


def check_refusal(case, ctx):
    lib = ctx.lib
    kind = case["kind"]
    if kind == "coord":
        x, y = int(case["x"]), int(case["y"])
        out = call(lib.Point.from_coordinates, x, y)
        if ref.on_curve(x, y):
            same_point(ctx, ctx.value(out, "Point.from_coordinates"), (x, y), "Point.from_coordinates")
            return
        ctx.refused(out, "Point.from_coordinates(%d, %d)" % (x, y), lib.Secp256k1Error)
        ctx.label("coordinates off the curve")
        ctx.nontrivial(True)
        return
    b = B(case["raw"])
    if kind == "priv":
        ok = len(b) == 32 and 0 < int.from_bytes(b, "big") < ref.N
        out = call(lib.PrivateKey.from_bytes, b)
        what = "PrivateKey.from_bytes(%s)" % case["raw"]
        if ok:
            ctx.same(bytes(ctx.value(out, what).raw()), b, what)
        else:
            ctx.refused(out, what, lib.Secp256k1Error)
            ctx.label("private key refused")
        ctx.nontrivial(len(b) == 32)
        return
    pt = ref.parse_pub(b)
    made = lib.PublicKey.from_bytes if kind == "pub" else lib.Point.from_bytes
    what = "%s.from_bytes(%s)" % ("PublicKey" if kind == "pub" else "Point", case["raw"])
    out = call(made, b)
    lenient = None
    if pt is None and len(b) == 64:
        lenient = (int.from_bytes(b[:32], "big"), int.from_bytes(b[32:], "big"))
    elif pt is None and len(b) == 65 and b[0] in (6, 7):
        lenient = (int.from_bytes(b[1:33], "big"), int.from_bytes(b[33:], "big"))
        if lenient[1] & 1 != b[0] & 1:
            lenient = None
    if lenient and not ref.on_curve(*lenient):
        lenient = None
    if pt is not None or (lenient and out.ok):
        v = ctx.value(out, what)
        (same_point if kind == "point" else lambda c, o, p, w: same_public(c, lib, o, p, w))(ctx, v, pt or lenient, what)
        ctx.label("valid or lenient form")
        return
    ctx.refused(out, what, lib.Secp256k1Error)
    ctx.label("encoding refused")
    ctx.nontrivial(len(b) in (33, 64, 65))


UNITS = [
    Unit("keys", "none", check_keys, gen=lambda lib: st.fixed_dictionaries({"key": gens.privkeys()}), quick=10000, thorough=200000, shards=3, tshards=8),
    Unit("group", "none", check_group, gen=group_cases, quick=9000, thorough=150000, shards=4, tshards=8),
    Unit("refusals", "none", check_refusal, gen=refusal_cases, quick=12000, thorough=400000, shards=2, tshards=8),
]
