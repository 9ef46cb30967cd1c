"""C02: plain encryption follows BIP38 byte for byte."""
from checks.common import *  # noqa: F401,F403

RULE = ("A case is a coin and network (coins writing addresses in an alphabet of their own excluded), a private key, a WIF "
        "form and a passphrase. The library's encrypted key is compared with the reference implementation's, and the "
        "reference's is decrypted by the library. Non-trivial: an unusual passphrase (empty, non-ASCII, 40 characters or "
        "more), an unusual key, a steered KDF, or a coin other than Bitcoin.")
ASSUMPTIONS = ["vlib/ref.py is BIP38 (self-tested on the vectors of the specification)",
               "stub unit: scrypt's parameters and inputs are compared through a keyed stand-in; the scrypt units use scrypt"]


def check(case, ctx):
    lib = ctx.lib
    want = plain_expected(lib, case)
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    code = ref.encrypt(B(case["key"]), case["compressed"], ap, case["pass"])
    one, kw = instance(lib, case["coin"], case["net"], case["per_call"])
    enc = ctx.value(call(one.encrypt, want["wif"], case["pass"], **kw), "encrypt(%s)" % want["wif"])
    ctx.same(enc, code, "encrypt does not give the string BIP38 prescribes")
    got = ctx.value(call(one.decrypt, code, case["pass"], **kw), "decrypt(%s)" % code)
    ctx.same(got, want["wif"], "decrypt of a conforming encrypted key")
    detail = ctx.value(call(one.decrypt, code, case["pass"], detail=True, **kw), "decrypt(%s, detail)" % code)
    same_detail(ctx, detail, want, "decrypt detail")
    label_pass(ctx, case["pass"])
    label_coin(ctx, case["coin"], case["net"], ap)
    kb = B(case["key"])
    if env.PW_MARK_TEXT in case["pass"]:
        ctx.label("steered KDF")
    ctx.nontrivial(env.PW_MARK_TEXT in case["pass"] or kb[0] == 0 or kb[16] == 0 or not case["pass"].isascii()
                   or not 0 < len(case["pass"]) < 40 or case["coin"] != "Bitcoin")


UNITS = [
    Unit("stub", "stub", check, gen=lambda lib: plain_cases(lib), quick=16000, thorough=400000, shards=6, tshards=8),
    Unit("scrypt", "real", check, gen=lambda lib: plain_cases(lib, stub=False), quick=80, thorough=4000, shards=2, tshards=8),
    Unit("native", "none", check, gen=lambda lib: plain_cases(lib, stub=False), quick=8, thorough=400, shards=1, tshards=8),
    related("related", "stub", check, lambda lib: plain_cases(lib), [("coin", "net")], quick=800, thorough=30000, shards=2, tshards=8),
]
