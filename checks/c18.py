"""C18: every documented coin and network has its documented versions."""
import os

from checks.common import *  # noqa: F401,F403

RULE = ("table: each of the 180 documented combinations of coin and network (transcribed from the documentation into "
        "vlib/data/coins.json), its versions, and whole operations with fixed keys in both forms. use: the same with generated keys, "
        "passphrases, salts and seeds, the network chosen at construction or per call. Every case is non-trivial.")
ASSUMPTIONS = ["vlib/data/coins.json is the documented table", "vlib/ref.py", "a stand-in KDF gives the same answers as scrypt"]

with open(os.path.join(gens.HERE, "data", "coins.json")) as _f:
    GOLDEN = gens.json.load(_f)
ALL = [[c, n] for c in sorted(GOLDEN) for n in sorted(GOLDEN[c])]
OWN_ALPHABET = {"Ripple": "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"}


def check(case, ctx):
    lib, name, net = ctx.lib, case["coin"], case["net"]
    wp, ap = GOLDEN[name][net]
    say = "%s %s: " % (name, net)
    cls = getattr(lib.cryptocurrencies, name, None)
    ctx.want(cls is not None, say + "no such coin in bip38.cryptocurrencies")
    ctx.want(isinstance(cls, type) and issubclass(cls, lib.cryptocurrencies.ICryptocurrency), say + "no cryptocurrency class", "class", cls)
    ctx.want(sorted(cls.NETWORKS) == sorted(GOLDEN[name]), say + "networks", sorted(GOLDEN[name]), sorted(cls.NETWORKS))
    ctx.same(cls.NETWORKS[net]["wif_prefix"], wp, say + "WIF version")
    ctx.same(cls.NETWORKS[net]["address_prefix"], ap, say + "address version")
    others = [n for n in sorted(GOLDEN[name]) if n != net]
    if case["per_call"]:
        one, kw = ctx.value(call(lib.BIP38, cls, others[case["per_call"] % len(others)] if others else net), say + "BIP38"), {"network": net}
    else:
        one, kw = ctx.value(call(lib.BIP38, cls, net), say + "BIP38"), {}
        if net == "mainnet" and case["compressed"]:
            one = ctx.value(call(lib.BIP38, cls), say + "BIP38 without a network")
    key, comp, p = B(case["key"]), case["compressed"], case["pass"]
    w = ref.wif(key, wp, comp)
    ctx.same(ctx.value(call(lib.wif.private_key_to_wif, key, wif_type(comp), cls, net), say + "private_key_to_wif"), w, say + "private_key_to_wif")
    ctx.same(ctx.value(call(lib.wif.wif_to_private_key, w, cls, net), say + "wif_to_private_key"), key.hex(), say + "wif_to_private_key")
    pt = ref.mul_g(int.from_bytes(key, "big"))
    enc = ctx.value(call(one.encrypt, w, p, **kw), say + "encrypt")
    got = ctx.value(call(one.decrypt, enc, p, detail=True, **kw), say + "decrypt")
    ctx.same(got["wif"], w, say + "decrypted WIF")
    own = OWN_ALPHABET.get(name)
    the_address(ctx, say + "decrypt", got["address"], pt, ap, comp, own)
    if not own:
        ctx.same(enc, ref.encrypt(key, comp, ap, p), say + "encrypt")
    inter = ref.intermediate(p, B(case["salt"]), case["lot"], case["seq"])
    made = ctx.value(call(one.create_new_encrypted_wif, inter, wif_type(comp), case["seed"], **kw), say + "create_new_encrypted_wif")
    want = ref.create(inter, B(case["seed"]), comp, ap)
    qt = ref.parse_pub(B(want["public_key"]))
    if not own:
        same_detail(ctx, made, want, say + "create_new_encrypted_wif")
    the_address(ctx, say + "create_new_encrypted_wif", made["address"], qt, ap, comp, own)
    ec = ctx.value(call(one.decrypt, made["encrypted_wif"], p, detail=True, **kw), say + "decrypt")
    the_address(ctx, say + "decrypt, EC-multiplied", ec["address"], qt, ap, comp, own)
    raw = ref.wif_parse(ec["wif"], wp)
    ctx.want(raw is not None and ref.mul_g(int.from_bytes(B(ec["private_key"]), "big")) == qt, say + "WIF of the EC-multiplied key", None, ec["wif"])
    ctx.same(ec["wif"], ref.wif(B(ec["private_key"]), wp, comp), say + "WIF of the EC-multiplied key")
    conf = ctx.value(call(one.confirm_code, p, made["confirmation_code"], **kw), say + "confirm_code")
    the_address(ctx, say + "confirm_code", conf, qt, ap, comp, own)
    ctx.label("per call" if case["per_call"] else "at construction")
    ctx.label("address version over one byte" if ap > 255 else "address version of one byte")
    ctx.nontrivial(True)


def the_address(ctx, what, got, pt, ap, comp, own):
    usual = ref.address(pt, ap, comp)
    if not own:
        ctx.same(got, usual, what + ": address")
        return
    right = ref.address(pt, ap, comp, own)
    if got == usual:
        ctx.finding("ripple-alphabet", "addresses reported for Ripple are written in Bitcoin's alphabet, not in Ripple.ALPHABET")
    else:
        ctx.same(got, right, what + ": address")


def table(ctx):
    for i, (name, net) in enumerate(ALL):
        for comp in (False, True):
            h = [ref.sha256(b"%d %d %s" % (j, comp, name.encode())) for j in range(3)]
            lot = [None, 100000 + int.from_bytes(h[2][:4], "big") % 900000][(i + comp) % 2]
            yield {"coin": name, "net": net, "per_call": [1, 0, 0, 2][(i + 2 * comp) % 4], "key": h[0].hex(), "compressed": comp, "pass": "p" + name,
                   "salt": h[1][:8].hex(), "lot": lot, "seq": None if lot is None else i, "seed": h[2][:24].hex()}


@st.composite
def use_cases(draw, lib):
    name, net = draw(st.sampled_from(ALL))
    lot = draw(st.one_of(st.none(), gens.lots()))
    return {"coin": name, "net": net, "per_call": draw(PER_CALL), "key": draw(gens.privkeys()), "compressed": draw(st.booleans()),
            "pass": draw(gens.passphrases()), "salt": draw(gens.salts8()), "lot": lot, "seq": None if lot is None else draw(gens.sequences()),
            "seed": draw(gens.seeds())}


UNITS = [
    Unit("table", "stub", check, cases=table, shards=4, tshards=4),
    Unit("use", "stub", check, gen=use_cases, quick=2500, thorough=100000, shards=3, tshards=8),
    Unit("scrypt", "real", check, gen=use_cases, quick=8, thorough=500, shards=1, tshards=8),
    related("related", "stub", check, use_cases, [("coin", "net"), ("lot", "seq")], quick=250, thorough=10000, shards=2, tshards=8),
]
