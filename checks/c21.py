"""C21: equivalent forms of an argument give the same result."""
from checks.common import *  # noqa: F401,F403

RULE = ("A case is a set of arguments; every operation is called with each of them in every equivalent form (bytes, lower and upper case "
        "hex, integer or decimal text, compressed or uncompressed key or key object, by position or keyword, network at construction "
        "or per call, defaults left out or given), and all outcomes must agree with each other and with the reference. detail: plain and "
        "detailed decryption and confirmation of right, wrong, damaged and foreign codes agree, refusals included. In part of the cases "
        "an argument is invalid and every form must be refused alike. Every case is non-trivial.")
ASSUMPTIONS = ["vlib/ref.py", "a stand-in KDF gives the same answers as scrypt"]


def forms(b):
    """Equivalent forms of a byte string."""
    h = b.hex()
    res = [("bytes", b), ("hex", h)]
    if h.upper() != h:
        res.append(("upper case hex", h.upper()))
        res.append(("mixed case hex", "".join(c.upper() if i % 2 else c for i, c in enumerate(h))))
    return res


def agree(ctx, what, outs, want=None):
    """All outcomes of [(form, Out)] are the same, and the one wanted if any is."""
    f0, o0 = outs[0]
    for f, o in outs:
        if want is not None:
            got = ctx.value(o, "%s, %s" % (what, f))
            if isinstance(want, dict):
                same_detail(ctx, got, want, "%s, %s" % (what, f))
                ctx.want(got == o0.value, "%s: %s and %s differ" % (what, f, f0), o0.value, got)
            else:
                ctx.same(got, want, "%s, %s" % (what, f))
        elif o.ok != o0.ok or (o.ok and o.value != o0.value) or (not o.ok and type(o.exc) is not type(o0.exc)):
            ctx.fail("%s: %s and %s differ" % (what, f, f0), o0, o)


@st.composite
def owner_cases(draw, lib):
    case = draw(ec_cases(lib, own_alphabet=True))
    bad = draw(st.sampled_from([None] * 4 + ["salt", "seed", "lot", "seq"]))
    if bad in ("salt", "seed"):
        b = draw(st.sampled_from([1, 3, 5, 7, 9, 12, 16, 23, 25, 32]).flatmap(lambda n: st.binary(min_size=n, max_size=n))).hex()
        if bad == "salt":
            case["salt"] = b
        else:
            case["seeds"] = [b]
    elif bad == "lot":
        case.update(lot=draw(st.sampled_from([0, 1, 99999, 1000000, -100000])), seq=1)
    elif bad == "seq":
        case.update(lot=123456, seq=draw(st.sampled_from([-1, 4096, 100000])))
    case["bad"] = bad
    return case


def check_owner(case, ctx):
    lib, p, bad = ctx.lib, case["pass"], case["bad"]
    spec, net, comp = case["coin"], case["net"], case["compressed"]
    salt, seed, lot, seq = B(case["salt"]), B(case["seeds"][0]), case["lot"], case["seq"]
    plain_alphabet = not (isinstance(spec, str) and spec in coins(lib).own_alphabet)
    fn = lib.BIP38.intermediate_code
    one = bip(lib, spec, net)
    outs = []
    for f, s in forms(salt):
        if lot is None:
            outs += [(f, call(fn, p, owner_salt=s)), (f + ", by position", call(one.intermediate_code, p, None, None, s))]
        else:
            outs += [(f, call(fn, passphrase=p, lot=lot, sequence=seq, owner_salt=s)), (f + ", decimal text", call(fn, p, lot=str(lot), sequence=str(seq), owner_salt=s)),
                     (f + ", lot as text", call(one.intermediate_code, p, str(lot), seq, s)), (f + ", sequence as text", call(fn, p, lot, str(seq), s))]
            outs += [("%s, text of %d and %d digits" % (f, m, n), call(fn, p, "%0*d" % (m, lot), "%0*d" % (n, seq), s)) for m, n in ((7, 2), (6, 4), (9, 5))]
    good = bad in (None, "seed")
    inter = ref.intermediate(p, salt, lot, seq) if good else None
    agree(ctx, "intermediate_code", outs, inter)
    if not good:
        ctx.want(not outs[0][1].ok, "intermediate_code with a bad %s should be refused" % bad, None, outs[0][1])
        ctx.label("bad " + bad)
        ctx.nontrivial()
        return
    outs = []
    nets = list(coins(lib).table[spec]) if isinstance(spec, str) else list(spec)
    for f, s in forms(seed):
        outs += [(f, call(one.create_new_encrypted_wif, inter, wif_type(comp), s)), (f + ", keywords", call(one.create_new_encrypted_wif, intermediate_passphrase=inter, seed=s, wif_type=wif_type(comp)))]
        for home in nets:
            two = bip(lib, spec, home)
            outs += [(f + ", network per call", call(two.create_new_encrypted_wif, inter, wif_type(comp), s, net)),
                     (f + ", network per call", call(two.create_new_encrypted_wif, inter, wif_type(comp), s, network=net))]
        if not comp:
            outs.append((f + ", default key form", call(one.create_new_encrypted_wif, inter, seed=s)))
    ap = coins(lib).prefixes(spec, net)[1]
    agree(ctx, "create_new_encrypted_wif", outs, ref.create(inter, seed, comp, ap) if not bad and plain_alphabet else None)
    if bad:
        ctx.want(not outs[0][1].ok, "create_new_encrypted_wif with a bad seed should be refused", None, outs[0][1])
    ctx.label("bad seed" if bad else "lot and sequence" if lot is not None else "no lot and sequence")
    ctx.nontrivial()


@st.composite
def detail_cases(draw, lib):
    case = draw(ec_cases(lib, own_alphabet=True))
    case.update(key=draw(gens.privkeys()), kind=draw(st.sampled_from(["plain", "ec", "confirm"])),
                how=draw(st.sampled_from(["right"] * 4 + ["wrong", "wrong", "damaged", "payload", "payload", "network", "junk"])), wrong=draw(gens.passphrases()),
                at=draw(st.integers(0, 50)), bit=draw(st.integers(1, 255)), junk=draw(gens.any_text(60)))
    return case


def check_detail(case, ctx):
    lib, p, comp, how, kind = ctx.lib, case["pass"], case["compressed"], case["how"], case["kind"]
    spec, net = case["coin"], case["net"]
    wp, ap = coins(lib).prefixes(spec, net)
    nets = sorted(coins(lib).table[spec]) if isinstance(spec, str) else sorted(spec)
    one = bip(lib, spec, net)
    key = B(case["key"])
    inter = ref.intermediate(p, B(case["salt"]), case["lot"], case["seq"])
    if kind == "plain":
        w = ref.wif(key, wp, comp)
        code = ctx.value(call(one.encrypt, w, p), "encrypt")
        agree(ctx, "encrypt", [("network at construction", call(one.encrypt, w, p)), ("keywords", call(one.encrypt, passphrase=p, wif=w))] + [
            (form + home, o) for home in nets for two in [bip(lib, spec, home)] for form, o in (
                ("network per call, instead of ", call(two.encrypt, w, p, network=net)), ("network by position, instead of ", call(two.encrypt, w, p, net)))], code)
    else:
        made = ctx.value(call(one.create_new_encrypted_wif, inter, wif_type(comp), case["seeds"][0]), "create_new_encrypted_wif")
        code = made["encrypted_wif" if kind == "ec" else "confirmation_code"]
    use = net
    if how == "wrong":
        p = case["wrong"]
    elif how == "damaged":
        i = case["at"] % len(code)
        code = code[:i] + ref.B58[(ref.B58.index(code[i]) + 1 + case["bit"] % 57) % 58] + code[i + 1:]
    elif how == "payload":
        raw = bytearray(ref.b58cd(code))
        raw[case["at"] % len(raw)] ^= case["bit"]
        code = ref.b58ce(bytes(raw))
    elif how == "network":
        use = (nets + ["nowhere"])[case["at"] % (len(nets) + 1)]
    elif how == "junk":
        code = case["junk"]

    def run(who, *extra, **kw):
        return call(who.confirm_code, p, code, *extra, **kw) if kind == "confirm" else call(who.decrypt, code, p, *extra, **kw)

    shorts = [("plain", run(one, network=use)), ("plain, detail=False", run(one, use, False)), ("plain, keywords", run(one, detail=False, network=use))]
    longs = [("detail", run(one, network=use, detail=True)), ("detail, by position", run(one, use, True))]
    if use == net:
        shorts.append(("plain, network of the instance", run(one)))
        longs.append(("detail, network of the instance", run(one, detail=True)))
    other = call(lib.BIP38, coins(lib).cls(spec), use)
    if other.ok:
        shorts.append(("plain, network at construction", run(other.value)))
        longs.append(("detail, network at construction", run(other.value, detail=True)))
    for home in nets:
        if home != use:
            two = bip(lib, spec, home)
            shorts.append(("plain, network per call instead of %s" % home, run(two, network=use)))
            longs.append(("detail, network per call instead of %s" % home, run(two, network=use, detail=True)))
    what = "%s of a %s code" % ("confirm_code" if kind == "confirm" else "decrypt", how)
    agree(ctx, what, shorts)
    agree(ctx, what, longs)
    s, d = shorts[0][1], longs[0][1]
    if how == "right":
        ctx.value(s, what)
    if s.ok != d.ok:
        ctx.fail("%s: the plain form %r, the detailed form %r" % (what, s, d))
    if s.ok:
        field = "address" if kind == "confirm" else "wif"
        ctx.want(isinstance(d.value, dict) and d.value.get(field) == s.value and isinstance(s.value, str), what + ": plain and detailed result", s.value, d.value)
        keys = {"public_key", "public_key_type", "address", "lot", "sequence"} | (set() if kind == "confirm" else {"wif", "private_key", "wif_type", "seed"})
        ctx.want(keys <= set(d.value), what + ": fields of the detail", sorted(keys), sorted(d.value))
    else:
        ctx.want(type(s.exc) is type(d.exc), what + ": both forms are refused alike", s, d)
    ctx.label(kind + ", " + how + (": opened" if s.ok else ": refused"))
    ctx.nontrivial()


@st.composite
def key_cases(draw, lib):
    spec, net = draw(gens.coin_net(coins(lib), own_alphabet=True))
    size = draw(st.sampled_from([32] * 7 + [0, 31, 33, 16]))
    return {"coin": spec, "net": net, "key": draw(gens.privkeys()), "raw": draw(st.binary(min_size=size, max_size=size)).hex() if size != 32 else None,
            "compressed": draw(st.booleans()), "prefix": draw(gens.addr_prefix()), "wif_prefix": draw(gens.wif_prefix()),
            "alphabet": draw(st.sampled_from([ref.B58, ref.B58[::-1], "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"]))}


def check_keys(case, ctx):
    lib, comp = ctx.lib, case["compressed"]
    key = B(case["key"] if case["raw"] is None else case["raw"])
    cls = coins(lib).cls(case["coin"])
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    w = lib.wif
    ok = len(key) == 32
    agree(ctx, "encode_wif of %d bytes" % len(key), [(f, call(w.encode_wif, k, case["wif_prefix"])) for f, k in forms(key)],
          (ref.wif(key, case["wif_prefix"], False), ref.wif(key, case["wif_prefix"], True)) if ok else None)
    agree(ctx, "encode_wif, default version", [(f, call(w.encode_wif, k)) for f, k in forms(key)] + [("given", call(w.encode_wif, key, 0x80))])
    outs = [(f + g, call(w.private_key_to_wif, k, *a, **kw)) for f, k in forms(key) for g, a, kw in (
        (", by position", (wif_type(comp), cls, case["net"]), {}), (", keywords", (), dict(network=case["net"], wif_type=wif_type(comp), cryptocurrency=cls)))]
    if comp:
        outs += [(f + ", default form", call(w.private_key_to_wif, k, cryptocurrency=cls, network=case["net"])) for f, k in forms(key)]
    agree(ctx, "private_key_to_wif", outs, ref.wif(key, wp, comp) if ok else None)
    agree(ctx, "private_key_to_wif, defaults", [(f, call(w.private_key_to_wif, k)) for f, k in forms(key)], ref.wif(key, 0x80, True) if ok else None)
    if not ok:
        ctx.want(not outs[0][1].ok, "private_key_to_wif of %d bytes" % len(key), None, outs[0][1])
        ctx.label("bad key length")
        ctx.nontrivial()
        return
    text = ref.wif(key, 0x80, comp)
    btc = lib.cryptocurrencies.Bitcoin
    agree(ctx, "decode_wif, default", [("default", call(w.decode_wif, text)), ("given", call(w.decode_wif, text, 0x80)), ("keyword", call(w.decode_wif, wif=text, wif_prefix=0x80))],
          (key, wif_type(comp), ref.b58d(text)[-4:]))
    for name, want in (("wif_to_private_key", key.hex()), ("get_wif_type", wif_type(comp)), ("get_wif_checksum", ref.b58d(text)[-4:].hex())):
        fn = getattr(w, name)
        agree(ctx, name, [("default", call(fn, text)), ("given", call(fn, text, btc, "mainnet")), ("keyword", call(fn, wif=text, network="mainnet", cryptocurrency=btc))], want)
    # public keys
    pt = ref.mul_g(int.from_bytes(key, "big"))
    short_, long_ = ref.ser(pt), ref.ser(pt, False)
    P = lib.PublicKey
    priv = lib.PrivateKey.from_bytes(key)
    given = [("compressed, " + f, v) for f, v in forms(short_)] + [("uncompressed, " + f, v) for f, v in forms(long_)] + [
        ("object of the private key", priv.public_key()), ("object from compressed bytes", P.from_bytes(short_)), ("object from uncompressed bytes", P.from_bytes(long_)),
        ("object from the point", P.from_point(lib.Point.from_coordinates(*pt))), ("object from the point of bytes", P.from_point(lib.Point.from_bytes(long_)))]
    kind = "compressed" if comp else "uncompressed"
    for prefix, alphabet in ((case["prefix"], case["alphabet"]), (ap, ref.B58)):
        agree(ctx, "address", [(f, call(lib.P2PKH.encode, v, address_prefix=prefix, public_key_type=kind, alphabet=alphabet)) for f, v in given],
              ref.address(pt, prefix, comp, alphabet))
    agree(ctx, "address, defaults", [(f, call(lib.P2PKH.encode, v)) for f, v in given] + [
        ("given", call(lib.P2PKH.encode, public_key=short_, public_key_type="compressed", address_prefix=0, alphabet=ref.B58))], ref.address(pt, 0, True))
    h = ref.hash160(short_).hex()
    agree(ctx, "address decoded", [("default", call(lib.P2PKH.decode, ref.address(pt, 0, True))), ("given", call(lib.P2PKH.decode, address=ref.address(pt, 0, True), address_prefix=0, alphabet=ref.B58))], h)
    for f, v in given:
        if not isinstance(v, str) and not isinstance(v, bytes):
            ctx.same(v.raw("compressed"), short_, "raw compressed, " + f)
            ctx.same(v.raw("uncompressed"), long_, "raw uncompressed, " + f)
    ctx.label("keys")
    ctx.nontrivial()


def hash_cases(lib):
    size = st.sampled_from(list(range(0, 70)) + [100, 119, 120, 128, 200])
    return st.fixed_dictionaries({"m": st.one_of(size.flatmap(lambda n: st.binary(min_size=n, max_size=n)), st.text("0123456789abcdefABCDEF", max_size=64).map(str.encode)).map(bytes.hex)})


def check_hash(case, ctx):
    m = B(case["m"])
    c = ctx.lib.crypto
    d = ref.dsha(m)
    for name, want in (("sha256", ref.sha256(m)), ("double_sha256", d), ("get_checksum", d[:4]), ("ripemd160", ref.rmd(m)), ("hash160", ref.hash160(m))):
        agree(ctx, name, [(f, call(getattr(c, name), v)) for f, v in forms(m)], want)
    ctx.label("hashes")
    ctx.nontrivial()


UNITS = [
    Unit("detail", "stub", check_detail, gen=detail_cases, quick=3000, thorough=100000, shards=3, tshards=8),
    Unit("owner", "stub", check_owner, gen=owner_cases, quick=1200, thorough=40000, shards=3, tshards=8),
    Unit("keys", "none", check_keys, gen=key_cases, quick=2500, thorough=80000, shards=2, tshards=6),
    Unit("hashes", "none", check_hash, gen=hash_cases, quick=4000, thorough=100000, shards=1, tshards=2),
    Unit("scrypt", "real", check_detail, gen=detail_cases, quick=8, thorough=500, shards=1, tshards=8),
]
