"""C09: keys stay bound to their coin and network."""
from checks.common import *  # noqa: F401,F403

RULE = ("pairs: two coin/network combinations (documented or user defined, often sharing a version) and codes of both modes "
        "made for the first and opened for the second; a reference model says whether the address versions agree. "
        "selection: a history of operations on one instance, each with no, an empty, a known or an unknown network. refusal: "
        "unknown network names and classes that are no cryptocurrency, in the constructor and all operations. Non-trivial: "
        "the two combinations differ in a version, or the history uses two or more networks.")
ASSUMPTIONS = ["vlib/ref.py", "coins with an alphabet of their own are excluded"]


@st.composite
def user_nets(draw):
    """A user coin whose networks often share a version."""
    pool_w = draw(st.lists(gens.wif_prefix(), min_size=1, max_size=2))
    pool_a = draw(st.lists(gens.addr_prefix(), min_size=1, max_size=2))
    names = draw(st.lists(st.sampled_from(["mainnet", "testnet", "regtest", "signet", "main", "x"]), min_size=2, max_size=4, unique=True))
    return {n: [draw(st.sampled_from(pool_w)), draw(st.sampled_from(pool_a))] for n in names}


@st.composite
def pair_cases(draw, lib):
    c = coins(lib)
    multi = [n for n in c.table if len(c.table[n]) > 1 and n not in c.own_alphabet]
    sort = draw(st.sampled_from(["any", "any", "same coin", "user", "near"]))
    if sort == "any":
        a, b = draw(st.sampled_from(c.std)), draw(st.sampled_from(c.std))
    elif sort == "same coin":
        n = draw(st.sampled_from(multi))
        a, b = [[n, draw(st.sampled_from(sorted(c.table[n])))] for _ in range(2)]
    elif sort == "near":      # shares a version with a
        a = draw(st.sampled_from(c.std))
        w, ap = c.prefixes(*a)
        b = draw(st.sampled_from([x for x in c.std if x != a and (c.prefixes(*x)[0] == w or c.prefixes(*x)[1] == ap)] or [a]))
    else:
        u = draw(user_nets())
        a, b = [[u, draw(st.sampled_from(sorted(u)))] for _ in range(2)]
        if draw(st.booleans()):
            b = draw(st.sampled_from(c.std))
    case = draw(ec_cases(lib, stub=False))
    case.update(a=a, b=b, key=draw(gens.privkeys()))
    return case


def check_pair(case, ctx):
    lib = ctx.lib
    c = coins(lib)
    (sa, na), (sb, nb) = case["a"], case["b"]
    (wa, aa), (wb, ab) = c.prefixes(sa, na), c.prefixes(sb, nb)
    key, comp, p = B(case["key"]), case["compressed"], case["pass"]
    one = bip(lib, sa, na)
    two, kw = instance(lib, sb, nb, case["per_call"])
    where = "%s/%s (%x, %x) -> %s/%s (%x, %x): " % (sa, na, wa, aa, sb, nb, wb, ab)
    ctx.label("address version shared" if aa == ab else "address versions differ")
    ctx.label("WIF version shared" if wa == wb else "WIF versions differ")
    # the WIF of a given to b
    w = ref.wif(key, wa, comp)
    got = call(two.encrypt, w, p, **kw)
    parsed = ref.wif_parse(w, wb)
    if parsed is None:
        ctx.refused(got, where + "encrypting a WIF of another version")
    elif wa == wb:
        ctx.same(ctx.value(got, where + "encrypt"), ref.encrypt(key, comp, ab, p), where + "encrypt")
    # codes of a opened for b
    enc = ctx.value(call(one.encrypt, w, p), "encrypt")
    ctx.same(enc, ref.encrypt(key, comp, aa, p), where + "encrypt for the first")
    open_both(ctx, where + "plain key: ", enc, p, two, kw, aa == ab, ref.wif(key, wb, comp))
    inter = ref.intermediate(p, B(case["salt"]), case["lot"], case["seq"])
    made = ctx.value(call(one.create_new_encrypted_wif, inter, wif_type(comp), case["seeds"][0]), "create_new_encrypted_wif")
    want = ref.create(inter, B(case["seeds"][0]), comp, aa)
    same_detail(ctx, made, want, where + "create for the first")
    k = ref.decrypt(want["encrypted_wif"], p, wb, aa)["key"]
    open_both(ctx, where + "EC-multiplied key: ", want["encrypted_wif"], p, two, kw, aa == ab, ref.wif(k, wb, comp))
    out = call(two.confirm_code, p, want["confirmation_code"], **kw)
    if aa == ab:
        ctx.same(ctx.value(out, where + "confirm_code"), want["address"], where + "confirm_code")
    else:
        ctx.refused(out, where + "confirm_code", lib.PassphraseError)
    ctx.nontrivial(wa != wb or aa != ab)


def open_both(ctx, what, code, p, two, kw, same, want):
    plain, detail = call(two.decrypt, code, p, **kw), call(two.decrypt, code, p, detail=True, **kw)
    if same:
        ctx.same(ctx.value(plain, what + "decrypt"), want, what + "decrypt")
        ctx.same(ctx.value(detail, what + "decrypt")["wif"], want, what + "decrypt with detail")
    else:
        ctx.refused(plain, what + "decrypt", ctx.lib.PassphraseError)
        ctx.refused(detail, what + "decrypt with detail", ctx.lib.PassphraseError)


OPS = ["encrypt", "decrypt", "decrypt ec", "create", "confirm"]


@st.composite
def bad_name(draw, nets):
    n = draw(st.sampled_from(sorted(nets)))
    t = draw(st.sampled_from([n.upper(), n.title(), n + " ", " " + n, n[:-1], n + "s", n + "\0", n.replace("net", ""), "FAKE_NETWORK",
                              "MAINNET", "testnet3", "testnet", "mainnet", "regtest", "signet", "main", "test", "m", "0", "None"]))
    if draw(st.integers(0, 4)) == 4:
        t = draw(gens.any_text(8))
    return t if t and t not in nets else "no such network"


@st.composite
def selection_cases(draw, lib):
    c = coins(lib)
    multi = [n for n in sorted(c.table) if len(c.table[n]) > 1 and n not in c.own_alphabet]
    spec = draw(st.one_of(st.sampled_from(multi), user_nets()))
    nets = sorted(c.table[spec]) if isinstance(spec, str) else sorted(spec)
    steps = draw(st.lists(st.tuples(
        st.sampled_from(OPS),
        gens.pick((3, st.none()), (1, st.just("")), (4, st.sampled_from(nets)), (1, bad_name(nets)))), min_size=2, max_size=8))
    case = draw(ec_cases(lib, stub=False))
    case.update(coin=spec, net=draw(st.sampled_from(nets)), key=draw(gens.privkeys()), steps=[list(s) for s in steps],
                positional=draw(st.booleans()))
    return case


def check_selection(case, ctx):
    lib = ctx.lib
    c = coins(lib)
    spec, home, p, comp = case["coin"], case["net"], case["pass"], case["compressed"]
    key, seed = B(case["key"]), B(case["seeds"][0])
    nets = c.table[spec] if isinstance(spec, str) else spec
    one = bip(lib, spec, home)
    inter = ref.intermediate(p, B(case["salt"]), case["lot"], case["seq"])
    used = {home}
    for i, (op, net) in enumerate(case["steps"]):
        eff = net or home
        # operands are made for the network in force, so that the operation must succeed for exactly it
        wp, ap = c.prefixes(spec, eff if eff in nets else home)
        if op == "encrypt":
            args, want = (ref.wif(key, wp, comp), p), ref.encrypt(key, comp, ap, p)
            fn = one.encrypt
        elif op == "decrypt":
            args, want = (ref.encrypt(key, comp, ap, p), p), ref.wif(key, wp, comp)
            fn = one.decrypt
        elif op == "decrypt ec":
            made = ref.create(inter, seed, comp, ap)
            args, want = (made["encrypted_wif"], p), ref.decrypt(made["encrypted_wif"], p, wp, ap)["wif"]
            fn = one.decrypt
        elif op == "create":
            args, want = (inter, wif_type(comp), seed.hex()), ref.create(inter, seed, comp, ap)
            fn = one.create_new_encrypted_wif
        else:
            made = ref.create(inter, seed, comp, ap)
            args, want = (p, made["confirmation_code"]), made["address"]
            fn = one.confirm_code
        out = call(fn, *args, net) if case["positional"] else call(fn, *args, **({} if net is None else {"network": net}))
        what = "step %d, %s on network %r of an instance for %r: " % (i, op, net, home)
        if eff not in nets:
            ctx.refused(out, what, lib.NetworkError)
            ctx.label("unknown network")
            continue
        used.add(eff)
        got = ctx.value(out, what)
        if isinstance(want, dict):
            same_detail(ctx, got, want, what)
        else:
            ctx.same(got, want, what)
        ctx.label("per call" if net else "default")
    ctx.nontrivial(len(used) > 1)


class NotACoin:
    NETWORKS = {"mainnet": {"wif_prefix": 0x80, "address_prefix": 0}}
    ALPHABET = None


NOT_COINS = {"int": int, "str": str, "object": object, "dict": dict, "NotACoin": NotACoin, "Exception": Exception, "type": type}


@st.composite
def refusal_cases(draw, lib):
    c = coins(lib)
    spec, net = draw(gens.coin_net(c))
    nets = sorted(c.table[spec]) if isinstance(spec, str) else sorted(spec)
    case = draw(ec_cases(lib, stub=False))
    case.update(coin=spec, net=net, key=draw(gens.privkeys()), bad=draw(bad_name(nets)),
                cls=draw(st.sampled_from(sorted(NOT_COINS))), detail=draw(st.booleans()))
    return case


def check_refusal(case, ctx):
    lib = ctx.lib
    c = coins(lib)
    spec, net, bad, p, comp = case["coin"], case["net"], case["bad"], case["pass"], case["compressed"]
    wp, ap = c.prefixes(spec, net)
    key = B(case["key"])
    for n in ("mainnet", net, bad):
        ctx.refused(call(lib.BIP38, NOT_COINS[case["cls"]], n), "BIP38(%s, %r)" % (case["cls"], n), lib.CryptocurrencyError)
    ctx.refused(call(lib.BIP38, c.cls(spec), bad), "BIP38(%s, %r)" % (spec, bad), lib.NetworkError)
    ctx.refused(call(lib.BIP38, cryptocurrency=c.cls(spec), network=bad), "BIP38(%s, %r)" % (spec, bad), lib.NetworkError)
    if "mainnet" not in (c.table[spec] if isinstance(spec, str) else spec):
        ctx.refused(call(lib.BIP38, c.cls(spec)), "BIP38(%s) without a mainnet" % spec, lib.NetworkError)
    one = bip(lib, spec, net)
    inter = ref.intermediate(p, B(case["salt"]), case["lot"], case["seq"])
    made = ref.create(inter, B(case["seeds"][0]), comp, ap)
    for what, out in [
        ("encrypt", call(one.encrypt, ref.wif(key, wp, comp), p, network=bad)),
        ("decrypt", call(one.decrypt, ref.encrypt(key, comp, ap, p), p, network=bad, detail=case["detail"])),
        ("decrypt EC", call(one.decrypt, made["encrypted_wif"], p, bad, case["detail"])),
        ("create_new_encrypted_wif", call(one.create_new_encrypted_wif, inter, wif_type(comp), network=bad)),
        ("confirm_code", call(one.confirm_code, p, made["confirmation_code"], network=bad, detail=case["detail"])),
    ]:
        ctx.refused(out, "%s on unknown network %r of %s" % (what, bad, spec), lib.NetworkError)
    ctx.label("known elsewhere" if bad in ("mainnet", "testnet", "regtest", "signet") else "made up")
    ctx.nontrivial(True)


UNITS = [
    Unit("pairs", "stub", check_pair, gen=pair_cases, quick=5000, thorough=120000, shards=4, tshards=8),
    Unit("selection", "stub", check_selection, gen=selection_cases, quick=4000, thorough=100000, shards=3, tshards=8),
    Unit("refusal", "stub", check_refusal, gen=refusal_cases, quick=2000, thorough=40000, shards=1, tshards=4),
    Unit("scrypt", "real", check_pair, gen=pair_cases, quick=12, thorough=800, shards=1, tshards=8),
]
