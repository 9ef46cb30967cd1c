"""C04: EC-multiply artefacts follow BIP38 byte for byte."""
from checks.common import *  # noqa: F401,F403

RULE = ("A case is a passphrase, an owner salt, lot and sequence or none, a seed, a key form and a coin and network. Each "
        "library operation is run on the reference implementation's input for that step and compared with the reference's "
        "output. Non-trivial: lot and sequence, an unusual passphrase, a steered value, or a coin other than Bitcoin.")
ASSUMPTIONS = ["vlib/ref.py is BIP38 (self-tested on the vectors of the specification)"]


def check(case, ctx):
    lib = ctx.lib
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    comp, p, seed = case["compressed"], case["pass"], B(case["seeds"][0])
    one, kw = instance(lib, case["coin"], case["net"], case["per_call"])
    inter = ref.intermediate(p, B(case["salt"]), case["lot"], case["seq"])
    if not case.get("foreign"):
        got = ctx.value(call(one.intermediate_code, passphrase=p, **owner_args(case)), "intermediate_code")
        ctx.same(got, inter, "the intermediate code is not the one BIP38 prescribes")
    want = ref.create(inter, seed, comp, ap)
    made = ctx.value(call(one.create_new_encrypted_wif, inter, wif_type(comp), seed.hex(), **kw),
                     "create_new_encrypted_wif(%s, seed %s)" % (inter, seed.hex()))
    same_detail(ctx, made, want, "create_new_encrypted_wif(%s, seed %s)" % (inter, seed.hex()))
    enc = ref.decrypt(want["encrypted_wif"], p, wp, ap)
    det = ctx.value(call(one.decrypt, want["encrypted_wif"], p, detail=True, **kw), "decrypt(%s)" % want["encrypted_wif"])
    same_detail(ctx, det, dict(wif=enc["wif"], private_key=enc["key"].hex(), wif_type=wif_type(comp),
                               public_key=ref.ser(enc["point"], comp).hex(), public_key_type=want["public_key_type"],
                               seed=seed.hex(), address=enc["address"], lot=enc["lot"], sequence=enc["sequence"]),
                "decrypt(%s)" % want["encrypted_wif"])
    conf = ref.confirm(want["confirmation_code"], p, ap)
    got = ctx.value(call(one.confirm_code, p, want["confirmation_code"], detail=True, **kw),
                    "confirm_code(%s)" % want["confirmation_code"])
    same_detail(ctx, got, conf, "confirm_code(%s)" % want["confirmation_code"])
    label_ec(ctx, case)
    if case.get("foreign"):
        ctx.label("lot outside 100000-999999 made elsewhere")
    ctx.nontrivial(case["lot"] is not None or not p.isascii() or not 0 < len(p) < 40 or case["coin"] != "Bitcoin"
                   or case["salt"].startswith(env.SALT_MARK.hex()))


@st.composite
def cases(draw, lib, stub):
    case = draw(ec_cases(lib, stub=stub))
    if case["lot"] is not None and draw(st.integers(0, 9)) == 0:
        # BIP38 stores 20 bits of lot number and only recommends six digit ones
        case["lot"] = draw(st.one_of(st.integers(0, 99999), st.integers(1000000, 1048575)))
        case["foreign"] = True
    return case


UNITS = [
    Unit("stub", "stub", check, gen=lambda lib: cases(lib, True), quick=12000, thorough=300000, shards=6, tshards=8),
    Unit("scrypt", "real", check, gen=lambda lib: cases(lib, False), quick=80, thorough=4000, shards=2, tshards=8),
    Unit("native", "none", check, gen=lambda lib: cases(lib, False), quick=6, thorough=300, shards=1, tshards=8),
    related("related", "stub", check, lambda lib: cases(lib, True), [("coin", "net"), ("salt", "lot", "seq", "foreign")], quick=500, thorough=20000, shards=2, tshards=8),
]
