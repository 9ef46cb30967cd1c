"""C05: a wrong passphrase is always refused as a wrong passphrase."""
from checks.common import *  # noqa: F401,F403

RULE = ("A case is a genuine code (plain or EC-multiplied encrypted key, or confirmation code) and two passphrases that "
        "scrypt can tell apart, the second mostly a near miss of the first. The library makes the code, opens it with the "
        "right passphrase (in half of the cases), and must refuse the wrong one with PassphraseError, with and without "
        "detail. Some wrong passphrases steer the KDF so that the wrongly decrypted private key or pass factor is a tiny, huge "
        "or zero-padded number, or one whose address hash agrees with the right one in all but one or two bytes. confused: pairs of "
        "characters, spaces and spellings often taken for one another, each way round. history: several codes under several passphrases, opened "
        "in turn by one or two instances with their own, nearly their own and each other's passphrases. Non-trivial: histories with right and wrong passphrases, near misses and steered cases (not an unrelated text).")
ASSUMPTIONS = ["passphrases equal after NFC and scrypt's own zero padding are the same passphrase"]


@st.composite
def near_miss(draw, p):
    kind = draw(st.integers(0, 21))
    i = draw(st.integers(0, max(0, len(p) - 1)))
    ch = draw(st.characters(exclude_categories=["Cs"]))
    u = gens.unicodedata
    q = [
        lambda: p.swapcase(), lambda: p.upper(), lambda: p.lower(), lambda: p + " ", lambda: " " + p, lambda: p[:-1],
        lambda: p[1:], lambda: p + ch, lambda: ch + p, lambda: p[:i] + ch + p[i + 1:], lambda: p[:i] + p[i + 1:],
        lambda: p[:i] + p[i + 1:i + 2] + p[i:i + 1] + p[i + 2:], lambda: p + p, lambda: u.normalize("NFKC", p),
        lambda: p.strip(), lambda: "".join(p.split()), lambda: p[::-1], lambda: p + "\n", lambda: p[:len(p) // 2],
        lambda: p[:i] + "\u200b" + p[i:], lambda: p.casefold(), lambda: p + "\0x",
    ][kind]()
    return q


@st.composite
def steered_wrong(draw):
    t = draw(st.one_of(st.integers(1, 300), st.integers(0, 247).map(lambda i: 1 << i), st.integers(1, 300).map(lambda i: ref.N - i),
                       st.binary(min_size=31, max_size=31).map(lambda b: int.from_bytes(b, "big") or 1)))
    return t.to_bytes(32, "big").hex()


@st.composite
def cases(draw, lib, stub):
    kind = draw(st.sampled_from(["plain", "ec", "confirm"]))
    if kind == "plain":
        case = draw(plain_cases(lib, own_alphabet=True, stub=stub))
    else:
        case = draw(ec_cases(lib, stub=stub, own_alphabet=True))
    case["kind"] = kind
    case["first"] = draw(st.booleans())
    case["detail"] = draw(st.booleans())
    if stub and draw(st.integers(0, 9)) < 2:
        # the wrong passphrase leads to a key whose address hash is nearly the right one
        case["compressed"], one, two = draw(st.sampled_from(gens.PAIRS))
        if draw(st.booleans()):
            one, two = two, one
        case["coin"], case["net"] = draw(st.sampled_from([["Bitcoin", "mainnet"], [{"mainnet": [draw(gens.wif_prefix()), 0]}, "mainnet"]]))
        case["pass"], case["wrong"] = draw(gens.passphrases()), draw(gens.passphrases())
        if kind == "plain":
            case["key"], case["steer"] = one, two
        else:
            case["lot"] = case["seq"] = None
            case["salt"] = draw(gens.salts8(False))
            b = pow(int.from_bytes(ref.dsha(B(case["seeds"][0])), "big"), -1, ref.N)
            case["pass"] = env.steer_password(case["pass"], (int(one, 16) * b % ref.N).to_bytes(32, "big"))
            case["steer"] = (int(two, 16) * b % ref.N).to_bytes(32, "big").hex()
        case["pair"] = True
    elif stub and draw(st.integers(0, 9)) < 3:
        case["steer"] = draw(steered_wrong())
        case["wrong"] = draw(gens.passphrases())
    else:
        if draw(st.integers(0, 2)) == 0:
            case["pass"], case["wrong"] = map(gens._clean, draw(gens.loose_pairs().flatmap(lambda t: st.sampled_from([t, t[::-1]]))))
            case["loose"] = True
        else:
            case["wrong"] = draw(gens.pick((6, near_miss(case["pass"])), (1, gens.passphrases())))
    return case


def check(case, ctx):
    lib = ctx.lib
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    one, kw = instance(lib, case["coin"], case["net"], case["per_call"])
    p, wrong = case["pass"], gens._clean(case["wrong"])
    if case["kind"] == "plain":
        code = ctx.value(call(one.encrypt, ref.wif(B(case["key"]), wp, case["compressed"]), p, **kw), "encrypt")
    else:
        inter = ctx.value(call(one.intermediate_code, p, **owner_args(case)), "intermediate_code")
        made = ctx.value(call(one.create_new_encrypted_wif, inter, wif_type(case["compressed"]), case["seeds"][0], **kw),
                         "create_new_encrypted_wif")
        code = made["confirmation_code" if case["kind"] == "confirm" else "encrypted_wif"]
    if "steer" in case:
        over = B(case["steer"])
        if case["kind"] == "plain":
            # choose the KDF output that decrypts the code to the chosen (wrong) private key
            raw = ref.b58d(code)
            d2 = ref.sha256(over)
            key = ref.aes_dec(d2, raw[7:23]) + ref.aes_dec(d2, raw[23:39])
            over = ref.xor(key, over) + d2
        wrong = env.steer_password(wrong, over)
        ctx.label("steered")
    if "pair" in case:
        ctx.label("steered to a key with nearly the same address hash")
    if "steer" in case and case["steer"] == case.get("key"):
        return
    if gens.same_passphrase(p, wrong):
        ctx.label("same passphrase (skipped)")
        return
    if env.PW_MARK_TEXT in p and env.PW_MARK_TEXT in wrong:
        a, b = (ref.kdf(ref.norm(t), b"salt", 16384, 8, 8, 64 if case["kind"] == "plain" else 32) for t in (p, wrong))
        if a == b:
            ctx.label("same steered KDF output (skipped)")
            return

    def run(text, detail):
        if case["kind"] == "confirm":
            return call(one.confirm_code, passphrase=text, confirmation_code=code, detail=detail, **kw)
        return call(one.decrypt, encrypted_wif=code, passphrase=text, detail=detail, **kw)

    if case["first"]:
        ctx.value(run(p, case["detail"]), "%s of %s with its own passphrase" % (case["kind"], code))
    for detail in (case["detail"], not case["detail"]):
        out = run(wrong, detail)
        ctx.refused(out, "%s code %s with a wrong passphrase" % (case["kind"], code), lib.PassphraseError)
    ctx.label(case["kind"])
    near = "steer" in case or "loose" in case or (p and wrong and (p in wrong or wrong in p or p.casefold() == wrong.casefold() or
                               sum(a != b for a, b in zip(p, wrong)) <= 2))
    ctx.label("near miss or steered" if near else "other")
    label_pass(ctx, p)
    ctx.nontrivial(near)


def confused(ctx):
    """Passphrases that differ in one character, space or spelling often taken for another one, either being the right one."""
    base = {"coin": "Bitcoin", "net": "mainnet", "per_call": False, "salt": "0123456789abcdef", "lot": None, "seq": None, "loose": True, "compressed": True,
            "key": "%064x" % 0xC05, "seeds": ["5a" * 24], "detail": False, "first": False}
    pairs = list(gens.LOOSE) + [(a, b) for a in gens.SPACES for b in (" ", "") if a != b]
    for i, (x, y) in enumerate(pairs):
        for j, (a, b) in enumerate(((x, y), (y, x))):
            for kind in ("plain", "ec", "confirm"):
                yield dict(base, kind=kind, first=bool((i + j) & 1), **{"pass": "It" + a + "s 5" + a + "p", "wrong": "It" + b + "s 5" + b + "p"})


# ---------------------------------------------------------------- histories
@st.composite
def histories(draw, lib):
    """Codes under a few passphrases, opened in turn with right, nearly right and each other's passphrases."""
    case = draw(ec_cases(lib, stub=False, own_alphabet=True))
    first = case["pass"]
    if draw(st.integers(0, 3)) == 0:
        first, other = map(gens._clean, draw(gens.loose_pairs().flatmap(lambda t: st.sampled_from([t, t[::-1]]))))
        words = [first, other]
    else:
        words = [first] + draw(st.lists(gens.pick((2, near_miss(first)), (1, gens.passphrases())), min_size=1, max_size=3))
    words = [gens._clean(w) for w in words]
    codes = draw(st.lists(st.fixed_dictionaries({
        "kind": st.sampled_from(["plain", "ec", "ec", "confirm"]), "word": st.integers(0, len(words) - 1), "key": gens.privkeys(), "seed": gens.seeds(),
        "comp": st.booleans(), "salt": st.sampled_from([case["salt"], case["salt"][::-1]])}), min_size=1, max_size=5))
    steps = draw(st.lists(st.tuples(st.integers(0, len(codes) - 1), st.one_of(st.just(-1), st.just(-1), st.integers(0, len(words) - 1), near_miss(first)), st.booleans()),
                          min_size=2, max_size=14))
    case.update(words=words, codes=codes, steps=[list(s) for s in steps], two=draw(st.booleans()))
    return case


def check_history(case, ctx):
    lib = ctx.lib
    wp, ap = coins(lib).prefixes(case["coin"], case["net"])
    one, kw = instance(lib, case["coin"], case["net"], case["per_call"])
    users = [one] + ([lib.BIP38(coins(lib).cls(case["coin"]), case["net"])] if case["two"] else [])
    codes = []
    for c in case["codes"]:
        p = case["words"][c["word"]]
        if c["kind"] == "plain":
            codes.append(ref.encrypt(B(c["key"]), c["comp"], ap, p))
        else:
            made = ref.create(ref.intermediate(p, B(c["salt"]), case["lot"], case["seq"]), B(c["seed"]), c["comp"], ap)
            codes.append(made["confirmation_code" if c["kind"] == "confirm" else "encrypted_wif"])
    own = isinstance(case["coin"], str) and case["coin"] in coins(lib).own_alphabet
    wrong = right = 0
    for n, (i, word, detail) in enumerate(case["steps"]):
        c, user = case["codes"][i], users[n % len(users)]
        p = case["words"][c["word"]]
        text = p if word == -1 else gens._clean(word) if isinstance(word, str) else case["words"][word]
        if c["kind"] == "confirm":
            out = call(user.confirm_code, text, codes[i], detail=detail, **kw)
        else:
            out = call(user.decrypt, codes[i], text, detail=detail, **kw)
        what = "step %d: %s code %s with " % (n, c["kind"], codes[i])
        if gens.same_passphrase(text, p):
            if ref.norm(text) == ref.norm(p) and not own:
                ctx.value(out, what + "its own passphrase")
                right += 1
        else:
            ctx.refused(out, what + "a wrong passphrase", lib.PassphraseError)
            wrong += 1
    ctx.label("%d right, then or before %d wrong" % (min(right, 3), min(wrong, 3)))
    ctx.nontrivial(wrong > 0 and right > 0)


UNITS = [
    Unit("history", "stub", check_history, gen=histories, quick=1600, thorough=60000, shards=4, tshards=8),
    Unit("stub", "stub", check, gen=lambda lib: cases(lib, True), quick=9000, thorough=250000, shards=6, tshards=8),
    Unit("confused", "stub", check, cases=confused, shards=2, tshards=2),
    Unit("scrypt", "real", check, gen=lambda lib: cases(lib, False), quick=70, thorough=4000, shards=2, tshards=8),
]
