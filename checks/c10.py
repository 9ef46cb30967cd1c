"""C10: WIF encoding and decoding are exact inverses."""
from checks.common import *  # noqa: F401,F403

RULE = ("codec: a private key (uniform, patterned, mined) under a WIF version of one to four bytes, a coin and network, given "
        "as bytes or hex; both encodings and all decoders are compared with the reference. texts: base58check texts of every "
        "payload length with right and wrong versions, markers and checksums, genuine WIFs with symbols or zero bytes added or missing, and "
        "other text; accepted exactly when the "
        "reference accepts, with the same result. lengths: keys of other lengths must be refused. Non-trivial: a patterned or "
        "mined key or longer version (codec), a text with a valid checksum (texts).")
ASSUMPTIONS = ["vlib/ref.py", "WIFs of numbers that are no private key (0 or at least n) may be refused or decoded"]


@st.composite
def codec_cases(draw, lib):
    spec, net = draw(gens.coin_net(coins(lib), own_alphabet=True))
    key = draw(gens.privkeys())
    prefix = draw(gens.pick((3, gens.wif_prefix()), (1, st.integers(0, 0xFFFF)), (1, st.integers(0, 2**32 - 1)), (1, st.just(0))))
    if draw(st.integers(0, 4)) == 4:      # the key begins with the version, or ends like a marker
        pb = ref.int_bytes(prefix)
        key = gens._h32(int.from_bytes((pb + pb + B(key))[:32], "big"))
    return {"coin": spec, "net": net, "key": key, "prefix": prefix, "hex": draw(st.booleans()), "default": draw(st.booleans())}


def check_codec(case, ctx):
    lib = ctx.lib
    key, prefix = B(case["key"]), case["prefix"]
    w = lib.wif
    arg = case["key"] if case["hex"] else key
    kw = {} if prefix == 0x80 and case["default"] else {"wif_prefix": prefix}
    want = (ref.wif(key, prefix, False), ref.wif(key, prefix, True))
    got = ctx.value(call(w.encode_wif, arg, **kw), "encode_wif(%s, %x)" % (case["key"], prefix))
    ctx.want(tuple(got) == want, "encode_wif(%s, %x)" % (case["key"], prefix), want, got)
    for text, comp in zip(want, (False, True)):
        got = ctx.value(call(w.decode_wif, text, **kw), "decode_wif(%s, %x)" % (text, prefix))
        ctx.want(tuple(got) == (key, wif_type(comp), ref.b58d(text)[-4:]), "decode_wif(%s, %x)" % (text, prefix),
                 (key, wif_type(comp), ref.b58d(text)[-4:]), got)
    spec, net = case["coin"], case["net"]
    cls = coins(lib).cls(spec)
    wp = coins(lib).prefixes(spec, net)[0]
    for comp in (False, True):
        text = ref.wif(key, wp, comp)
        args = {"cryptocurrency": cls, "network": net}
        ctx.same(ctx.value(call(w.private_key_to_wif, arg, wif_type(comp), **args), "private_key_to_wif"), text, "private_key_to_wif of %s" % case["key"])
        ctx.same(ctx.value(call(w.wif_to_private_key, text, **args), "wif_to_private_key(%s)" % text), key.hex(), "wif_to_private_key(%s)" % text)
        ctx.same(ctx.value(call(w.get_wif_type, text, **args), "get_wif_type(%s)" % text), wif_type(comp), "get_wif_type(%s)" % text)
        ctx.same(ctx.value(call(w.get_wif_checksum, text, **args), "get_wif_checksum(%s)" % text), ref.b58d(text)[-4:].hex(), "get_wif_checksum(%s)" % text)
    ctx.same(ctx.value(call(w.private_key_to_wif, arg, **{"cryptocurrency": cls, "network": net}), "private_key_to_wif"), ref.wif(key, wp, True),
             "private_key_to_wif without a WIF type")
    if prefix > 255:
        ctx.label("version of two or more bytes")
    if prefix == 0:
        ctx.label("version 0")
    if key[0] == 0:
        ctx.label("leading zero byte")
    if key[-1] == 1:
        ctx.label("key ends in 01")
    ctx.nontrivial(prefix > 255 or prefix == 0 or key[0] == 0 or key[-1] in (0, 1) or case["key"] in gens.MINED["keys"])


@st.composite
def text_cases(draw, lib):
    prefix = draw(gens.pick((2, st.just(0x80)), (2, gens.wif_prefix()), (1, st.integers(0, 0xFFFFFF)), (1, st.just(0))))
    pb = ref.int_bytes(prefix)
    sort = draw(st.sampled_from(["payload", "payload", "payload", "version", "checksum", "text", "marker", "alphabet", "around", "around"]))
    key = B(draw(gens.privkeys()))
    if sort == "payload":
        n = draw(st.one_of(st.sampled_from([30, 31, 32, 33, 34, 35, 36, 64, 65]), st.integers(0, 80)))
        body = draw(gens.raw_bytes(n))
        if draw(st.booleans()) and n:
            body = body[:-1] + b"\x01"
        text = ref.b58ce(pb + body)
    elif sort == "marker":
        marker = draw(st.one_of(st.sampled_from([b"\0", b"\x02", b"\x03", b"\x81", b"\xff", b"\x11", b"\x01\x01", b"\0\x01", b"\x01\0"]),
                                st.binary(min_size=1, max_size=2)))
        text = ref.b58ce(pb + key + marker)
    elif sort == "version":
        other = draw(st.one_of(gens.wif_prefix(), st.sampled_from([prefix ^ 1, prefix * 256 + 1, prefix * 257, prefix << 8, prefix >> 8, 0])))
        text = ref.wif(key, other, draw(st.booleans()))
    elif sort == "checksum":
        raw = pb + key + draw(st.sampled_from([b"", b"\x01"]))
        chk = bytearray(ref.dsha(raw)[:4])
        for k in draw(st.sets(st.integers(0, 3), min_size=1, max_size=2)):
            chk[k] ^= draw(st.integers(1, 255))
        if draw(st.booleans()):
            # a checksum whose digits begin or end with zero, to be found among a few keys
            for _ in range(draw(st.sampled_from([0, 8, 24]))):
                h = ref.dsha(raw)[:4].hex()
                if "0" in (h[0], h[-1]):
                    break
                raw = pb + ref.sha256(raw) + raw[len(pb) + 32:]
            chk = draw(near_hash(ref.dsha(raw)[:4]))
        text = ref.b58e(raw + draw(st.sampled_from([bytes(chk), bytes(chk), bytes(chk), b"", ref.sha256(raw)[:4], ref.dsha(raw)[:3], ref.dsha(raw)[:5]])))
    elif sort == "around":
        marker = draw(st.sampled_from([b"", b"\x01"]))
        genuine = ref.b58ce(pb + key + marker)
        ones = draw(st.integers(1, 5))
        text = draw(st.sampled_from([
            "1" * ones + genuine, genuine + "1" * ones, genuine[:1] + "1" * ones + genuine[1:],
            ref.b58ce(bytes(ones) + pb + key + marker), ref.b58e(bytes(ones) + ref.b58d(genuine)), ref.b58ce(pb + bytes(ones) + key + marker),
            ref.b58ce(pb + key + bytes(ones) + marker), ref.b58ce(pb + key + marker + bytes(ones)), ref.b58e(ref.b58d(genuine) + bytes(ones)),
            genuine + genuine, genuine[::-1], genuine.lstrip("1") if genuine[0] == "1" else genuine[1:], genuine[:-1], genuine.swapcase(),
            draw(st.sampled_from(" \t\n\r\0\v\f,;:.-_=+'\"")) + genuine, genuine + draw(st.sampled_from(" \t\n\r\0\v\f,;:.-_=+'\"")),
            "wif:" + genuine, "0x" + genuine, genuine[:20] + draw(st.sampled_from(" -_\n")) + genuine[20:],
            ref.b58ce(pb + key[1:] + marker) if key[0] == 0 else ref.b58ce(pb + key[:-1] + marker), ref.b58ce(pb[:-1] + key + marker),
            (pb + key + marker).hex(), ref.b58d(genuine).hex()]))
    elif sort == "alphabet":
        text = ref.b58ce(pb + key, ref.RIPPLE)
    else:
        text = draw(st.one_of(gens.any_text(60), st.text(alphabet=ref.B58, max_size=60)))
        text = draw(st.sampled_from(["", "5", "K", "L", "1"])) + text
    return {"prefix": prefix, "text": text, "sort": sort}


def check_text(case, ctx):
    lib = ctx.lib
    w, prefix, text = lib.wif, case["prefix"], case["text"]
    want = ref.wif_parse(text, prefix) if text.isascii() else None
    got = call(w.decode_wif, text, wif_prefix=prefix)
    spec = {"mainnet": [prefix, 0]}
    helpers = [call(fn, text, coins(lib).cls(spec), "mainnet") for fn in (w.wif_to_private_key, w.get_wif_type, w.get_wif_checksum)]
    what = "decode_wif(%a, %x)" % (text, prefix)
    if want is None:
        ctx.label("refused: " + case["sort"])
        ctx.refused(got, what, Exception)
        for h in helpers:
            ctx.refused(h, "helper on %a" % text, Exception)
    elif 0 < int.from_bytes(want[0], "big") < ref.N:
        ctx.label("accepted: " + case["sort"])
        ctx.want(tuple(ctx.value(got, what)) == (want[0], wif_type(want[1]), want[2]), what, want, got.value)
        ctx.want([ctx.value(h, "helper on %a" % text) for h in helpers] == [want[0].hex(), wif_type(want[1]), want[2].hex()],
                 "helpers on %a" % text, want, helpers)
    else:
        ctx.label("not a private key")
        ctx.want(not got.ok or tuple(got.value) == (want[0], wif_type(want[1]), want[2]), what, want, got)
    ctx.nontrivial(ref.b58cd(text) is not None)


def length_cases(lib):
    return st.fixed_dictionaries({"key": gens.pick((3, st.binary(max_size=70)), (1, st.integers(0, 80).map(bytes)),
                                                    (2, st.sampled_from([16, 31, 33, 44, 51, 52, 63, 64, 64, 64, 65, 66, 68]).flatmap(gens.raw_bytes)),
                                                    (1, st.sampled_from([32, 33]).flatmap(gens.raw_bytes).map(lambda b: b.hex().encode()))).map(bytes.hex),
                                  "prefix": gens.wif_prefix(), "hex": st.booleans()})


def check_length(case, ctx):
    lib = ctx.lib
    key = B(case["key"])
    if len(key) == 32:
        return
    arg = case["key"] if case["hex"] else key
    ctx.refused(call(lib.wif.encode_wif, arg, case["prefix"]), "encode_wif of %d bytes" % len(key), lib.Error)
    for t in ("wif", "wif-compressed"):
        ctx.refused(call(lib.wif.private_key_to_wif, arg, t), "private_key_to_wif of %d bytes" % len(key), lib.Error)
    ctx.nontrivial(28 <= len(key) <= 36 or len(key) == 64)


UNITS = [
    Unit("codec", "none", check_codec, gen=codec_cases, quick=16000, thorough=500000, shards=4, tshards=8),
    Unit("texts", "none", check_text, gen=text_cases, quick=24000, thorough=800000, shards=3, tshards=8),
    Unit("lengths", "none", check_length, gen=length_cases, quick=3000, thorough=60000, shards=1, tshards=2),
    related("related", "none", check_codec, codec_cases, [("coin", "net")], quick=1200, thorough=40000, shards=2, tshards=8),
    related("related texts", "none", check_text, text_cases, [("text", "sort")], quick=2000, thorough=60000, shards=2, tshards=8),
]
