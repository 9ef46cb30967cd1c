"""C15: lot, sequence, salt, seed and key form are honoured exactly or refused."""
from checks.common import *  # noqa: F401,F403

RULE = ("owner: intermediate codes for lots and sequences inside, at and beyond the limits or missing, as integers or decimal "
        "text, and owner salts of 0 to 40 bytes or none; a model of the rules says which are refused, and what is accepted is "
        "followed to the decrypted key and the confirmation. create: seeds of 0 to 64 bytes and key forms, right and nearly "
        "right. sequences: every sequence number. codec: key forms and key lengths of the WIF helpers. Non-trivial: something "
        "is at or beyond a limit, missing, or a whole chain was followed.")
ASSUMPTIONS = ["vlib/ref.py", "an empty salt or seed counts as omitted, as documented", "a stand-in KDF gives the same answers as scrypt"]


def bytes_len(draw, n):
    return draw(st.binary(min_size=n, max_size=n)).hex()


EDGE_LOTS = [100000, 100001, 999999, 999998, 99999, 99998, 1000000, 1000001, 0, 1, -1, -100000, -999999, 1048575, 1048576, 4095,
             4096, 65535, 65536, 2**31, 2**32, 2**32 + 100000, 2**63, 2**64 + 199999, 2**20 + 100000, 2**24 + 100000, 10**9, -2**31]
EDGE_SEQS = [0, 1, 2, 4094, 4095, 4096, 4097, -1, -2, -4095, -4096, 8191, 8192, 65535, 100000, 2**31, 2**32, 2**32 + 1, 4096 * 3 + 5, 10**9]


def lot_values():
    near = [n + d for n in gens.HARVEST.small if n < 1 << 24 for d in (-1, 0, 1)]
    return gens.pick((4, gens.lots()), (3, st.sampled_from(EDGE_LOTS)), (1, st.integers(-2**40, 2**40)), (1, st.integers(90000, 110000)),
                     (1, st.integers(999990, 1100000)), (1, gens._nonempty(near, 5)))


def seq_values():
    near = [n + d for n in gens.HARVEST.small if n < 1 << 24 for d in (-1, 0, 1)]
    return gens.pick((4, gens.sequences()), (3, st.sampled_from(EDGE_SEQS)), (1, st.integers(-2**40, 2**40)), (1, st.integers(4000, 5000)),
                     (1, gens._nonempty(near, 5)))


@st.composite
def owner_cases(draw, lib):
    spec, net = draw(gens.coin_net(coins(lib)))
    which = draw(st.sampled_from(["both"] * 6 + ["neither"] * 3 + ["lot", "sequence"]))
    fine = draw(st.sampled_from([True, False]))       # nothing wrong, or anything
    lot = draw(gens.lots() if fine else lot_values()) if which in ("both", "lot") else None
    seq = draw(gens.sequences() if fine else seq_values()) if which in ("both", "sequence") else None
    size = draw(st.sampled_from([None, 8, 8, 4])) if fine else draw(st.sampled_from([None] * 3 + [8] * 8 + [4] * 5 + [0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 15, 16, 16, 17, 18, 20, 24, 31, 32, 33, 40]))
    salt = None if size is None else draw(gens.salts8() if size == 8 else gens.salts4() if size == 4 else gens.raw_bytes(size).map(bytes.hex))
    return {"coin": spec, "net": net, "pass": draw(gens.passphrases()), "lot": lot, "seq": seq, "text": draw(st.sampled_from([0, 0, 0, 1])),
            "salt": salt, "form": draw(st.sampled_from(["bytes", "hex", "HEX"])), "seed": draw(gens.seeds()), "compressed": draw(st.booleans()),
            "positional": draw(st.booleans())}


def acceptable(lot, seq, salt):
    if (lot is None) != (seq is None):
        return "only one of lot and sequence"
    if lot is not None and not 100000 <= lot <= 999999:
        return "lot out of range"
    if seq is not None and not 0 <= seq <= 4095:
        return "sequence out of range"
    if salt:
        if len(salt) not in (8, 4):
            return "salt of %d bytes" % len(salt)
        if len(salt) == 4 and lot is None:
            return "4 byte salt without lot and sequence"
    return None


def as_form(b, form):
    return b if form == "bytes" else b.hex() if form == "hex" else b.hex().upper()


def check_owner(case, ctx):
    lib = ctx.lib
    lot, seq, p = case["lot"], case["seq"], case["pass"]
    salt = None if case["salt"] is None else B(case["salt"])
    say = "intermediate_code(lot=%r, sequence=%r, %s)" % (lot, seq, "no salt" if salt is None else "salt of %d bytes" % len(salt))
    why = acceptable(lot, seq, salt)
    args = {}
    if lot is not None:
        args["lot"] = str(lot) if case["text"] else lot
    if seq is not None:
        args["sequence"] = str(seq) if case["text"] else seq
    if salt is not None:
        args["owner_salt"] = as_form(salt, case["form"])
    fn = lib.BIP38.intermediate_code
    out = call(fn, p, args.get("lot"), args.get("sequence"), args.get("owner_salt")) if case["positional"] else call(fn, p, **args)
    if why:
        ctx.refused(out, say + ": " + why, lib.Error)
        ctx.label("refused: " + why.split(" of")[0])
        ctx.nontrivial()
        return
    if salt is not None and not salt and not out.ok:
        ctx.refused(out, say, lib.Error)
        ctx.label("empty salt refused")
        return
    code = ctx.value(out, say)
    raw = ref.b58cd(code)
    ctx.want(raw is not None and len(raw) == 49, say + ": no intermediate code", None, code)
    entropy = raw[8:16]
    if salt:
        ctx.same(code, ref.intermediate(p, salt, lot, seq), say)
    else:
        # the code itself records the salt that was chosen
        ctx.same(code, ref.intermediate(p, entropy[:4] if lot is not None else entropy, lot, seq), say + ", with the salt it chose")
        ctx.label("salt chosen by the library")
    if lot is not None:
        ctx.same(int.from_bytes(entropy[4:], "big"), lot * 4096 + seq, say + ": recorded lot and sequence")
    follow(ctx, say, case, code, lot, seq)
    ctx.label("whole chain, %s" % ("lot and sequence" if lot is not None else "neither"))
    if lot in (100000, 999999) or seq in (0, 4095):
        ctx.label("at a limit")
    ctx.nontrivial()


def follow(ctx, say, case, code, lot, seq):
    lib = ctx.lib
    one = bip(lib, case["coin"], case["net"])
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    seed, comp, p = B(case["seed"]), case["compressed"], case["pass"]
    made = ctx.value(call(one.create_new_encrypted_wif, code, wif_type(comp), seed.hex()), say + ": create_new_encrypted_wif")
    ctx.want(made["seed"] == seed.hex(), say + ": another seed was used", seed.hex(), made["seed"])
    ctx.want(made["public_key_type"] == ("compressed" if comp else "uncompressed"), say + ": another key form", comp, made["public_key_type"])
    got = ctx.value(call(one.decrypt, made["encrypted_wif"], p, detail=True), say + ": decrypt")
    pt = ref.parse_pub(B(made["public_key"]))
    same_detail(ctx, got, dict(lot=lot, sequence=seq, seed=seed.hex(), wif_type=wif_type(comp), public_key=ref.ser(pt, comp).hex(),
                               address=ref.address(pt, ap, comp)), say + ": decrypt")
    conf = ctx.value(call(one.confirm_code, p, made["confirmation_code"], detail=True), say + ": confirm_code")
    same_detail(ctx, conf, dict(lot=lot, sequence=seq, public_key=made["public_key"], address=made["address"],
                                public_key_type=made["public_key_type"]), say + ": confirm_code")


def every_sequence(ctx):
    for seq in range(4096):
        lot = 100000 + int.from_bytes(ref.sha256(b"lot %d" % (seq % 2048 + seq // 64)), "big") % 900000
        h = ref.sha256(b"case %d" % seq)
        yield {"coin": "Bitcoin", "net": "mainnet", "lot": lot, "seq": seq, "salt": h[:4 if seq % 3 else 8].hex(), "form": "bytes", "text": 0,
               "pass": "p%d" % seq, "seed": ref.sha256(h)[:24].hex(), "compressed": seq % 2 == 1, "positional": False}


def every_lot(ctx):
    """A whole chain for lots spread over the range, with both neighbours of every multiple of 4096 and of 65536."""
    lots = set(range(100000, 1000000, 4500 if ctx.tier == "quick" else 45))
    for m in (4096, 65536):
        for k in range(0, 1000000, m):
            lots |= {x for x in (k - 1, k, k + 1) if 100000 <= x <= 999999}
    for i, lot in enumerate(sorted(lots)):
        h = ref.sha256(b"lot %d" % lot)
        yield {"coin": "Bitcoin", "net": "testnet", "lot": lot, "seq": int.from_bytes(h[8:10], "big") % 4096, "salt": h[:4].hex(), "form": "hex",
               "text": i % 2, "pass": "p", "seed": ref.sha256(h)[:24].hex(), "compressed": i % 2 == 0, "positional": True}


WIF_TYPES = ["WIF", "Wif", "wif ", " wif", "wif_compressed", "wif-uncompressed", "wif-Compressed", "wif-compresse", "wif-compressed ",
             "compressed", "uncompressed", "", "w", "wi", "wiff", "wif\0", "wif-", "None", "0", "1", "-compressed", "wif-compressedd", "wіf"]


@st.composite
def create_cases(draw, lib):
    case = draw(ec_cases(lib, stub=False))
    size = draw(st.sampled_from([24] * 8 + [0, 1, 2, 8, 12, 15, 16, 17, 20, 22, 23, 25, 26, 28, 31, 32, 33, 40, 47, 48, 48, 48, 49, 50, 64, 96]))
    case["seed"] = draw(gens.seeds() if size == 24 else gens.raw_bytes(size).map(bytes.hex))
    kind = draw(st.sampled_from(["good"] * 5 + ["near", "near", "any"]))
    case["type"] = draw(st.sampled_from(["wif", "wif-compressed"]) if kind == "good" else st.sampled_from(WIF_TYPES) if kind == "near" else gens.any_text(14))
    case["form"] = draw(st.sampled_from(["bytes", "hex", "HEX"]))
    case["positional"] = draw(st.booleans())
    return case


def check_create(case, ctx):
    lib = ctx.lib
    seed, kind, p = B(case["seed"]), case["type"], case["pass"]
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    one, kw = instance(lib, case["coin"], case["net"], case["per_call"])
    inter = ref.intermediate(p, B(case["salt"]), case["lot"], case["seq"])
    arg = as_form(seed, case["form"])
    out = (call(one.create_new_encrypted_wif, inter, kind, arg, kw.get("network")) if case["positional"] else
           call(one.create_new_encrypted_wif, inter, seed=arg, wif_type=kind, **kw))
    say = "create_new_encrypted_wif(wif_type=%r, seed of %d bytes)" % (kind, len(seed))
    good = kind in ("wif", "wif-compressed")
    if not good or len(seed) not in (0, 24):
        ctx.refused(out, say, lib.Error)
        ctx.label("key form refused" if not good else "seed of a wrong length refused")
        ctx.nontrivial()
        return
    comp = kind == "wif-compressed"
    if not seed:
        if not out.ok:
            ctx.refused(out, say, lib.Error)
            return
        seed = B(out.value["seed"])
        ctx.want(len(seed) == 24, say + ": the seed it chose", 24, len(seed))
    same_detail(ctx, ctx.value(out, say), ref.create(inter, seed, comp, ap), say)
    got = ctx.value(call(one.decrypt, out.value["encrypted_wif"], p, detail=True, **kw), say + ": decrypt")
    same_detail(ctx, got, dict(seed=seed.hex(), wif_type=kind, lot=case["lot"], sequence=case["seq"]), say + ": decrypt")
    ctx.label("accepted")
    ctx.nontrivial()


@st.composite
def codec_cases(draw, lib):
    spec, net = draw(gens.coin_net(coins(lib)))
    size = draw(st.sampled_from([32] * 6 + [0, 1, 16, 30, 31, 33, 34, 36, 64, 64, 66]))
    kind = draw(st.sampled_from(["wif", "wif-compressed", "near", "any"]))
    return {"coin": spec, "net": net, "key": draw(gens.privkeys() if size == 32 else gens.raw_bytes(size).map(bytes.hex)),
            "type": draw(st.sampled_from(WIF_TYPES)) if kind == "near" else draw(gens.any_text(14)) if kind == "any" else kind,
            "form": draw(st.sampled_from(["bytes", "hex", "HEX"]))}


def check_codec(case, ctx):
    lib = ctx.lib
    key, kind = B(case["key"]), case["type"]
    wp, _ap = coins(lib).prefixes(case["coin"], case["net"])
    out = call(lib.wif.private_key_to_wif, as_form(key, case["form"]), kind, coins(lib).cls(case["coin"]), case["net"])
    say = "private_key_to_wif(%d bytes, %r)" % (len(key), kind)
    if kind not in ("wif", "wif-compressed") or len(key) != 32:
        ctx.refused(out, say, lib.Error)
        ctx.label("refused")
    else:
        ctx.same(ctx.value(out, say), ref.wif(key, wp, kind == "wif-compressed"), say)
        ctx.label("accepted")
    ctx.nontrivial()


UNITS = [
    Unit("owner", "stub", check_owner, gen=owner_cases, quick=5000, thorough=150000, shards=3, tshards=8),
    Unit("create", "stub", check_create, gen=create_cases, quick=3000, thorough=80000, shards=2, tshards=6),
    Unit("sequences", "stub", check_owner, cases=every_sequence, shards=2, tshards=4),
    Unit("lots", "stub", check_owner, cases=every_lot, shards=1, tshards=8),
    Unit("codec", "none", check_codec, gen=codec_cases, quick=3000, thorough=60000, shards=1, tshards=2),
    Unit("scrypt", "real", check_owner, gen=owner_cases, quick=12, thorough=800, shards=1, tshards=8),
    related("related", "stub", check_owner, owner_cases, [("coin", "net")], quick=500, thorough=20000, shards=2, tshards=8),
    related("related creations", "stub", check_create, create_cases, [("coin", "net"), ("salt", "lot", "seq")], quick=400, thorough=10000, shards=2, tshards=8),
]
