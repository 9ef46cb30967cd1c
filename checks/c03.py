"""C03: EC-multiply artefacts agree from passphrase to private key."""
from checks.common import *  # noqa: F401,F403

RULE = ("A case is a passphrase, an owner salt of 4 or 8 bytes, lot and sequence or none, one to three seeds, a key form and "
        "a coin and network. The library's four operations are chained and everything they report is compared. Every case "
        "is non-trivial unless it has no lot and sequence, one seed, an ASCII passphrase, no steered value and Bitcoin.")
ASSUMPTIONS = ["vlib/ref.py states the public key and address of a private key"]


def check(case, ctx):
    lib = ctx.lib
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    comp = case["compressed"]
    p = case["pass"]
    one, kw = instance(lib, case["coin"], case["net"], case["per_call"])
    inter = ctx.value(call(one.intermediate_code, passphrase=p, **owner_args(case)), "intermediate_code")
    alphabets = [ref.B58]
    if isinstance(case["coin"], str) and case["coin"] in coins(lib).own_alphabet:
        alphabets.append(coins(lib).cls(case["coin"]).ALPHABET)
    seen = set()
    for seed in case["seeds"]:
        made = ctx.value(call(one.create_new_encrypted_wif, intermediate_passphrase=inter, wif_type=wif_type(comp),
                              seed=seed, **kw), "create_new_encrypted_wif(%s, seed %s)" % (inter, seed))
        what = "code %s: " % made.get("encrypted_wif")
        ctx.same(made.get("seed"), seed, "the seed reported at creation")
        det = ctx.value(call(one.decrypt, made["encrypted_wif"], p, detail=True, **kw), what + "decrypt")
        key = det.get("private_key")
        ctx.want(isinstance(key, str) and len(key) == 64, what + "no private key of 32 bytes", 64, key)
        k = int(key, 16)
        ctx.want(0 < k < ref.N, what + "private key out of range", None, key)
        pt = ref.mul_g(k)
        pub = ref.ser(pt, comp).hex()
        ctx.same(made.get("public_key"), pub, what + "public key announced at creation is not the private key's")
        addrs = {ref.address(pt, ap, comp, a) for a in alphabets}
        ctx.want(made.get("address") in addrs, what + "address announced at creation", sorted(addrs), made.get("address"))
        addr = made["address"]
        form = "compressed" if comp else "uncompressed"
        ctx.same(made.get("public_key_type"), form, what + "public key type at creation")
        same_detail(ctx, det, dict(wif=ref.wif(B(key), wp, comp), private_key=key, wif_type=wif_type(comp), public_key=pub,
                                   public_key_type=form, seed=seed, address=addr, lot=case["lot"], sequence=case["seq"]),
                    what + "decrypt detail")
        plain = ctx.value(call(one.decrypt, made["encrypted_wif"], p, **kw), what + "decrypt")
        ctx.same(plain, det["wif"], what + "decrypt without detail")
        conf = ctx.value(call(one.confirm_code, passphrase=p, confirmation_code=made["confirmation_code"], detail=True, **kw),
                         "confirm_code(%s)" % made["confirmation_code"])
        same_detail(ctx, conf, dict(public_key=pub, public_key_type=form, address=addr, lot=case["lot"],
                                    sequence=case["seq"]), what + "confirmation detail")
        plain = ctx.value(call(one.confirm_code, p, made["confirmation_code"], **kw), "confirm_code")
        ctx.same(plain, addr, what + "confirm_code without detail")
        ctx.want(key not in seen, what + "two seeds gave the same private key", None, key)
        seen.add(key)
        if key.startswith("00"):
            ctx.label("private key: leading zero byte")
    label_ec(ctx, case)
    ctx.nontrivial(case["lot"] is not None or len(case["seeds"]) > 1 or not p.isascii() or case["coin"] != "Bitcoin"
                   or case["salt"].startswith(env.SALT_MARK.hex()))


UNITS = [
    Unit("stub", "stub", check, gen=lambda lib: ec_cases(lib, max_seeds=2, own_alphabet=True), quick=9000, thorough=250000, shards=6, tshards=8),
    Unit("scrypt", "real", check, gen=lambda lib: ec_cases(lib, stub=False, max_seeds=2, own_alphabet=True), quick=80, thorough=4000, shards=2, tshards=8),
    related("related", "stub", check, lambda lib: ec_cases(lib, max_seeds=2, own_alphabet=True), [("coin", "net"), ("salt", "lot", "seq")], quick=400, thorough=20000, shards=2, tshards=8),
]
