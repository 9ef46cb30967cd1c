"""C01: encrypting then decrypting a WIF returns that WIF."""
from checks.common import *  # noqa: F401,F403

RULE = ("A case is a coin and network (documented or user defined), a private key (uniform, patterned or mined), a WIF "
        "form and a passphrase; in the stub unit 40 % of passphrases steer the KDF so that a block to be encrypted has "
        "leading or trailing zero bytes. Every case runs encrypt, decrypt and decrypt with detail, so every case whose "
        "private key and passphrase are not both plain (uniform key, short ASCII text) counts as non-trivial.")
ASSUMPTIONS = ["the reference implementation in vlib/ref.py (self-tested on published vectors) states what a WIF denotes",
               "stub unit: the code does not depend on which KDF scrypt.hash computes (calibrated at start)"]


def check(case, ctx):
    lib = ctx.lib
    want = plain_expected(lib, case)
    one, kw = instance(lib, case["coin"], case["net"], case["per_call"])
    enc = ctx.value(call(one.encrypt, wif=want["wif"], passphrase=case["pass"], **kw), "encrypt(%s)" % want["wif"])
    ctx.want(isinstance(enc, str), "encrypt returns no text", str, enc)
    got = ctx.value(call(one.decrypt, encrypted_wif=enc, passphrase=case["pass"], **kw), "decrypt(%s)" % enc)
    ctx.same(got, want["wif"], "decrypt does not return the encrypted WIF")
    two = bip(lib, case["coin"], case["net"])
    detail = ctx.value(call(two.decrypt, enc, case["pass"], detail=True), "decrypt(%s, detail)" % enc)
    same_detail(ctx, detail, want, "decrypt detail")
    label_pass(ctx, case["pass"])
    label_coin(ctx, case["coin"], case["net"], coins(lib).prefixes(case["coin"], case["net"])[1])
    kb = B(case["key"])
    steered = env.PW_MARK_TEXT in case["pass"]
    if steered:
        ctx.label("steered KDF")
    if kb[0] == 0:
        ctx.label("key: leading zero byte")
    odd = kb[0] == 0 or kb[16] == 0 or kb[-1] in (0, 1) or case["key"] in gens.MINED.get("keys", ())
    ctx.nontrivial(steered or odd or not case["pass"].isascii() or not 0 < len(case["pass"]) < 40)


UNITS = [
    Unit("stub", "stub", check, gen=lambda lib: plain_cases(lib, own_alphabet=True), quick=16000, thorough=400000, shards=6, tshards=8),
    Unit("scrypt", "real", check, gen=lambda lib: plain_cases(lib, own_alphabet=True, stub=False), quick=80, thorough=4000, shards=2, tshards=8),
    related("related", "stub", check, lambda lib: plain_cases(lib, own_alphabet=True), [("coin", "net")], quick=800, thorough=30000, shards=2, tshards=8),
]
