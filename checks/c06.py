"""C06: passphrases are matched by Unicode NFC form, and by nothing looser."""
from checks.common import *  # noqa: F401,F403

RULE = ("A case is a passphrase and a variant of it: either with the same NFC form (decomposed, partly decomposed, combining "
        "marks reordered, singletons and excluded compositions) or with a different one (compatibility form, case, spaces, "
        "invisible characters, a change anywhere in a long text). The variant must give the same codes and open what "
        "the original made, or give other codes and open nothing. every: each character that has a decomposition, and each combining mark in "
        "either order with four others, 16 to a passphrase; and pairs of characters, spaces and spellings often taken for one another. "
        "texts: each character of the scripts and categories that some matching ignores or folds (thorough: every assigned character), "
        "together with its compatibility, case and width forms, inside a passphrase: those of different NFC form must give different "
        "codes and not open each other's. long: texts of 5000 to a million characters that differ in one place or in length. halves: texts with half of a surrogate pair, which are refused or passphrases of their own. Non-trivial: the texts differ.")
ASSUMPTIONS = ["Python's unicodedata defines NFC", "texts that differ only in trailing NULs are excluded from the different ones"]
U = gens.unicodedata
# characters that NFC replaces by another one
SINGLETONS = [chr(c) for c in list(range(0x300, 0x3000)) + list(range(0xF900, 0xFB50)) + list(range(0x1D15E, 0x1D1C1))
              + list(range(0x2F800, 0x2FA1E)) if U.normalize("NFC", chr(c)) != chr(c)]
COMPAT = [chr(c) for c in list(range(0xA0, 0x3400)) + list(range(0xFB00, 0x10000)) + list(range(0x1D400, 0x1D800))
          if U.normalize("NFC", chr(c)) == chr(c) and U.normalize("NFKC", chr(c)) != chr(c)]
INVISIBLE = "\u200b\u200c\u200d\u2060\ufeff\u00ad\u034f\ufe0f\ufe0e\u061c\u180e\u0000\u0001\u001f\u007f\u0080\u115f\u3164\u2028\U000e0020"


def texts():
    single = st.lists(st.one_of(st.sampled_from(SINGLETONS), gens.any_text(3)), min_size=1, max_size=6).map("".join)
    compat = st.lists(st.one_of(st.sampled_from(COMPAT), gens.any_text(3)), min_size=1, max_size=6).map("".join)
    hangul = st.lists(st.integers(0xAC00, 0xD7A3).map(chr), min_size=1, max_size=5).map("".join)
    return gens.pick((4, gens.combining_text()), (2, single), (2, compat), (1, hangul), (3, gens.passphrases()))


def flags(n):
    """n truth values, a pattern of 100 repeated."""
    return st.lists(st.booleans(), min_size=min(n, 100), max_size=min(n, 100)).map(lambda f: (f * (n // 100 + 1))[:n])


@st.composite
def variant(draw, p):
    """A text that is often NFC equivalent to p."""
    kind = draw(st.integers(0, 6))
    if kind == 0:
        return U.normalize("NFD", p)
    if kind == 1:
        return U.normalize("NFC", p)
    if kind in (2, 3):      # decompose some characters
        return "".join(U.normalize("NFD", c) if f else c for c, f in zip(p, draw(flags(len(p)))))
    d = list(U.normalize("NFD", p))
    if kind in (4, 5):      # reorder neighbouring marks of different classes
        flips = draw(flags(len(d)))
        for i in range(len(d) - 1):
            a, b = U.combining(d[i]), U.combining(d[i + 1])
            if flips[i] and a and b and a != b:
                d[i], d[i + 1] = d[i + 1], d[i]
        return "".join(d)
    cut = draw(st.integers(0, len(p)))
    return U.normalize("NFD", p[:cut]) + U.normalize("NFC", p[cut:])


@st.composite
def looser(draw, p):
    """A text that some looser matching would take for p."""
    kind = draw(st.integers(0, 19))
    i = draw(st.integers(0, max(0, len(p) - 1)))
    n = draw(st.integers(1, 3))
    ch = draw(st.sampled_from(list(INVISIBLE)))
    other = draw(st.characters(exclude_categories=["Cs"]))
    return [
        lambda: U.normalize("NFKC", p), lambda: U.normalize("NFKD", p), lambda: p.casefold(), lambda: p.lower(),
        lambda: p.upper(), lambda: p.title(), lambda: p.strip(), lambda: " " + p, lambda: p + " ", lambda: p + "\n",
        lambda: " ".join(p.split()), lambda: p[:i] + ch + p[i:], lambda: p + ch, lambda: ch + p,
        lambda: p[:-n], lambda: p[:i] + other + p[i + 1:], lambda: p + other,
        lambda: "".join(c for c in p if not U.combining(c)), lambda: "".join(c for c in U.normalize("NFD", p) if not U.combining(c)),
        lambda: p.encode("utf-8")[:72].decode("utf-8", "ignore"),
    ][kind]()


@st.composite
def cases(draw, lib):
    equivalent = draw(st.booleans())
    a = draw(texts())
    if draw(st.integers(0, 4)) == 0:
        a = draw(gens.long_text()) + a
    make = variant if equivalent else looser
    if not equivalent and draw(st.booleans()):
        a, b = map(gens._clean, draw(gens.loose_pairs()))
    else:
        b = gens._clean(draw(make(a)))
    for _ in range(2):
        if b == a:
            b = gens._clean(draw(make(a)))
    if b == a:
        b = U.normalize("NFD", a) if equivalent else a + "x"
    if b == a:
        a, b = a + "\u00e9", a + "e\u0301"
    if draw(st.booleans()):
        a, b = b, a
    return {"a": a, "b": b, "key": draw(gens.privkeys()), "compressed": draw(st.booleans()), "salt": draw(gens.salts8(False)),
            "lot": draw(st.one_of(st.none(), gens.lots())), "seq": draw(gens.sequences()), "seed": draw(gens.seeds())}


def every_case(ctx):
    """Every character that has a decomposition, and every combining mark after and before another one."""
    chars = [c for c in map(chr, range(0x110000)) if not 0xD800 <= ord(c) < 0xE000]
    decomposed = [c for c in chars if U.normalize("NFD", c) != c and not 0xAC00 <= ord(c) < 0xD7A4]
    hangul = [chr(c) for c in range(0xAC00, 0xD7A4)][::1 if ctx.tier != "quick" else 19]
    pairs = [(c, U.normalize("NFD", c)) for c in decomposed + hangul]
    for other in "\u0334\u0327\u0315\u0301":
        pairs += [("x" + m + other, "x" + other + m) for m in chars if U.combining(m) and U.combining(m) != U.combining(other)]
    case = {"key": "%064x" % 0xC06, "compressed": True, "salt": "0123456789abcdef", "lot": None, "seq": 0, "seed": "5a" * 24}
    for i in range(0, len(pairs), 16):
        part = pairs[i:i + 16]
        yield dict(case, a=" ".join(p[0] for p in part), b=" ".join(p[1] for p in part), lot=123456 if i & 16 else None)
    loose = [p for p in gens.LOOSE] + [(a, b) for a in gens.SPACES for b in (" ", "") if a != b]
    for i, (x, y) in enumerate(loose):
        for a, b in ((x, y), (y, x)):
            yield dict(case, a="It" + a + "s 5" + a + "p", b="It" + b + "s 5" + b + "p", lot=123456 if i & 1 else None)


OPS = ["intermediate", "encrypt", "decrypt", "confirm", "decrypt ec"]


def forms(c):
    return {c, c.upper(), c.lower(), c.casefold(), c.title(), U.normalize("NFKC", c), U.normalize("NFD", c), U.normalize("NFKD", c)}


def text_case(ctx):
    quick = ctx.tier == "quick"
    chars = []
    for c in map(chr, range(1, 0x110000)):
        cat = U.category(c)
        if cat in ("Cs", "Co", "Cn") and not (cat == "Cn" and c in "\u2065\ufff0\U000e0000\U000e0fff"):
            continue
        if quick and not (cat[0] in "CZ" or cat == "Sk" or len(forms(c)) > 2 and ord(c) < 0x2000 or ord(c) < 0x250 or 0x2000 <= ord(c) < 0x2070 or
                          (cat[0] in "MPS" or cat == "Lm" or len(forms(c)) > 1) and ord(c) % 5 == 0):
            continue
        chars.append(c)
    first = [c for c in chars if U.category(c)[0] in "CZ" or U.category(c) == "Sk" or U.category(c)[0] == "P" and ord(c) < 0x3100]
    first += [chr(c) for c in (0x34f, 0x115f, 0x1160, 0x17b4, 0x180b, 0x3164, 0xfe00, 0xfe0e, 0xfe0f, 0xffa0, 0xE0100)]
    for ops, some in ((OPS, first), (None, chars)):
        for n, i in enumerate(range(0, len(some), 40)):
            texts = ["corpus"]
            for c in some[i:i + 40]:
                texts += ["cor" + t + "pus" for t in sorted(forms(c))]
                texts += [c + "corpus", "corpus" + c] if ops else []
            for op in ops or [OPS[n % 5]]:
                yield {"texts": sorted(set(map(gens._clean, texts))), "op": op}


def check_texts(case, ctx):
    """Passphrases of different NFC form give different codes, and open only their own."""
    lib, op, texts = ctx.lib, case["op"], case["texts"]
    one = bip(lib, "Bitcoin", "mainnet")
    key, salt, seed = bytes(range(1, 33)), bytes(range(8)), b"Z" * 24
    made = {}
    own = ref.norm("corpus")
    if op == "decrypt":
        code = ref.encrypt(key, True, 0, "corpus")
    elif op in ("confirm", "decrypt ec"):
        code = ref.create(ref.intermediate("corpus", salt, None, None), seed, True, 0)["confirmation_code" if op == "confirm" else "encrypted_wif"]
    for t in texts:
        if op in ("intermediate", "encrypt"):
            if op == "intermediate":
                got = ctx.value(call(lib.BIP38.intermediate_code, t, owner_salt=salt), "intermediate_code of %a" % t)
            else:
                got = ctx.value(call(one.encrypt, ref.wif(key, 0x80, True), t), "encrypt under %a" % t)
            other = made.setdefault(got, t)
            if ref.norm(other) != ref.norm(t) and not gens.same_passphrase(other, t):
                ctx.want(False, "the different passphrases %a and %a give the same code in %s" % (other, t, op))
        else:
            out = call(one.confirm_code, t, code) if op == "confirm" else call(one.decrypt, code, t)
            if ref.norm(t) == own:
                ctx.value(out, "%s with the right passphrase %a" % (op, t))
            elif not gens.same_passphrase(t, "corpus"):
                ctx.refused(out, "%s of a code of 'corpus' with the passphrase %a" % (op, t), lib.PassphraseError)
    ctx.label(op)
    ctx.nontrivial(len(texts) > 1)


def half_cases(ctx):
    """Texts with half of a surrogate pair, which have no UTF-8 form, and those they might be taken for."""
    halves = ["\ud800", "\udfff", "\ud83d\ude00", "\ude00\ud83d", "\udc80", "\udce9", "\udcc3\udca9", "\udc00", "\udbff"]
    for i, half in enumerate(halves):
        forms_ = {half, "?", "", "\ufffd", "\ufffd" * 3, "\\" + "%r" % half, "%r" % half, half.encode("utf-8", "backslashreplace").decode(), "?" * len(half), " ",
                  half.encode("utf-8", "xmlcharrefreplace").decode(), "\ud801", half[::-1], half.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "replace"),
                  half.encode("utf-8", "surrogatepass").decode("latin-1"), half.encode("utf-8", "surrogatepass").decode("utf-8", "replace")}
        try:
            forms_.add(half.encode("utf-8", "surrogateescape").decode("latin-1"))
            forms_.add(half.encode("utf-8", "surrogateescape").decode("utf-8", "ignore"))
        except UnicodeError:
            pass
        for j, (a, b) in enumerate((("", ""), ("a", ""), ("", "a"), ("pass", "word"), ("\u00e9", "e\u0301"))):
            yield {"halves": [(a + f + b).encode("utf-16-be", "surrogatepass").hex() for f in sorted(forms_)], "lot": 123456 if (i + j) % 2 else None}


def check_halves(case, ctx):
    """Texts without a UTF-8 form are refused as passphrases, or are passphrases of their own."""
    lib = ctx.lib
    one = bip(lib, "Bitcoin", "mainnet")
    salt, w = bytes(range(8)), ref.wif(bytes(range(1, 33)), 0x80, True)
    kw = {} if case["lot"] is None else {"lot": case["lot"], "sequence": 7}
    texts_ = [B(t).decode("utf-16-be", "surrogatepass") for t in case["halves"]]
    texts_ = sorted({U.normalize("NFC", t): t for t in texts_}.values())
    wild = [t for t in texts_ if any(0xD800 <= ord(c) < 0xE000 for c in t)]
    for op in ("encrypt", "intermediate"):
        made = {}
        for t in texts_:
            out = call(one.encrypt, w, t) if op == "encrypt" else call(lib.BIP38.intermediate_code, t, owner_salt=salt, **kw)
            if out.ok:
                ctx.want(out.value not in made, "the different passphrases %a and %a give the same code in %s" % (made.get(out.value), t, op))
                made[out.value] = t
            else:
                ctx.want(t in wild, "%s under %a" % (op, t), "a code", out)
    for t in texts_:
        if t in wild:
            continue
        ec = ref.create(ref.intermediate(t, salt, case["lot"], 7 if kw else None), b"Z" * 24, True, 0)
        for code, fn in ((ref.encrypt(bytes(range(1, 33)), True, 0, t), one.decrypt), (ec["encrypted_wif"], one.decrypt),
                         (ec["confirmation_code"], lambda c, p: one.confirm_code(p, c))):
            for x in wild:
                ctx.refused(call(fn, code, x), "opening a code of %a with the passphrase %a" % (t, x), Exception)
    ctx.label("no UTF-8 form")
    ctx.nontrivial(len(wild) > 0)


def long_cases(ctx):
    """Long passphrases that differ at one end, or in the middle, or in length."""
    sizes = [5000, 8190, 8191, 8192, 8193, 10000, 10001, 16384, 20000, 32768, 50000, 65535, 65536, 65537, 100000, 131072, 262144, 1 << 20]
    if ctx.tier != "quick":
        sizes += [3000, 4097, 12345, 16385, 30000, 32767, 32769, 40000, 99999, 100001, 131073, 200000, 500000, 1000000, (1 << 20) + 1, 1 << 22]
    case = {"key": "%064x" % 0xC06, "compressed": True, "salt": "0123456789abcdef", "lot": None, "seq": 0, "seed": "5a" * 24}
    for i, n in enumerate(sizes):
        for j, unit in enumerate(("x", "\u00e9", "word \u4e2d", "\U0001f600", "a")):
            for k, how in enumerate(("last", "longer", "twice", "middle", "first", "equal")):
                if ctx.tier == "quick" and n > 20000 and (i + j + k) % 5:
                    continue
                yield {"make": [n, unit, how], **dict(case, lot=123456 if (i + k) & 1 else None)}


def check_long(case, ctx):
    n, unit, how = case["make"]
    a = (unit * (n // len(unit) + 1))[:n]
    b = {"last": a[:-1] + "y", "longer": a + unit, "twice": a + a, "middle": a[:n // 2] + "y" + a[n // 2 + 1:], "first": "y" + a[1:],
         "equal": U.normalize("NFD", a)}[how]
    try:
        check(dict(case, a=a, b=b), ctx)
    except Violation as v:
        raise Violation("passphrases of %d characters (%s of %a): %s" % (n, how, unit, short(str(v)[-300:], 300))) from None
    ctx.label("%s %d characters" % ("over" if n > 20000 else "up to", 20000))
    ctx.nontrivial()


def check(case, ctx):
    lib = ctx.lib
    a, b = case["a"], case["b"]
    ctx.nontrivial(a != b)
    one = bip(lib, "Bitcoin", "mainnet")
    two = bip(lib, "Bitcoin", "mainnet")
    w = ref.wif(B(case["key"]), 0x80, case["compressed"])
    oa = owner_args(case)
    enc = [ctx.value(call(one.encrypt, w, t), "encrypt") for t in (a, b)]
    inter = [ctx.value(call(lib.BIP38.intermediate_code, t, **oa), "intermediate_code") for t in (a, b)]
    if gens.nfc_bytes(a) == gens.nfc_bytes(b):
        ctx.label("equivalent, texts differ" if a != b else "equal")
        ctx.same(enc[1], enc[0], "NFC-equivalent passphrases %a and %a give different encrypted keys" % (a, b))
        ctx.same(inter[1], inter[0], "NFC-equivalent passphrases %a and %a give different intermediate codes" % (a, b))
        made = ctx.value(call(one.create_new_encrypted_wif, inter[0], wif_type(case["compressed"]), case["seed"]), "create")
        for x, y in ((a, b), (b, a)):
            ctx.same(ctx.value(call(two.decrypt, enc[0], y), "decrypt with an NFC-equivalent passphrase"), w, "decrypt")
            outs = [ctx.value(call(two.decrypt, made["encrypted_wif"], t, detail=True), "decrypt with an equivalent passphrase")
                    for t in (x, y)]
            ctx.same(outs[1], outs[0], "decrypt")
            outs = [ctx.value(call(two.confirm_code, t, made["confirmation_code"], detail=True),
                              "confirm_code with an equivalent passphrase") for t in (x, y)]
            ctx.same(outs[1], outs[0], "confirm_code")
    elif gens.same_passphrase(a, b):
        ctx.label("scrypt cannot tell them apart (skipped)")
    else:
        ctx.label("different")
        ctx.want(enc[0] != enc[1], "different passphrases %a and %a give the same encrypted key" % (a, b))
        ctx.want(inter[0] != inter[1], "different passphrases %a and %a give the same intermediate code" % (a, b))
        made = ctx.value(call(one.create_new_encrypted_wif, inter[0], wif_type(case["compressed"]), case["seed"]), "create")
        what = "with the different passphrase %a instead of %a" % (b, a)
        ctx.refused(call(two.decrypt, enc[0], b), "decrypt " + what)
        ctx.refused(call(two.decrypt, made["encrypted_wif"], b), "decrypt of an EC-multiplied key " + what)
        ctx.refused(call(two.confirm_code, b, made["confirmation_code"]), "confirm_code " + what)


UNITS = [
    Unit("every", "stub", check, cases=every_case, shards=3, tshards=4),
    Unit("texts", "stub", check_texts, cases=text_case, shards=4, tshards=8),
    Unit("long", "stub", check_long, cases=long_cases, shards=2, tshards=4),
    Unit("halves", "stub", check_halves, cases=half_cases, shards=1),
    Unit("stub", "stub", check, gen=cases, quick=6000, thorough=250000, shards=5, tshards=8),
    Unit("scrypt", "real", check, gen=cases, quick=40, thorough=2000, shards=2, tshards=8),
]
