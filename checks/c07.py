"""C07: mistyped, truncated or extended codes are refused."""
from checks.common import *  # noqa: F401,F403

RULE = ("A case is a genuine code of one of the five kinds (encrypted key of either mode, confirmation code, intermediate code, "
        "WIF, address) and one to three edits of its text: replaced, swapped, inserted, dropped, repeated or case-changed "
        "characters, look-alikes and characters outside the alphabet, digit pairs of equal value under sloppy decoding, "
        "changed checksum only, leading zero digits, truncation, extension. every character: characters of all sorts foreign to Base58 (thorough: all of Unicode) inside, around and in the "
        "place of a character of a code, also of the one they resemble. spellings: codes in groups with separators, in quotes, with schemes, and in other codings. Every operation taking that kind of code must "
        "refuse it, with the right passphrase and network, in part of the cases after the genuine code was used. Non-trivial: the edited text keeps the genuine length, or only adds "
        "or drops up to two characters.")
ASSUMPTIONS = ["an edited text that is itself a well-formed code (chance 2^-32) is skipped"]
LOOKALIKE = {"1": "lI", "o": "0O", "O": "0", "i": "Il1", "L": "Il", "q": "g9", "B": "8", "S": "5", "Z": "2", "A": "\u0410", "a": "\u0430",
             "c": "\u0441", "e": "\u0435", "P": "\u0420", "6": "b\uff16", "5": "\uff15", "m": "\u043c", "r": "\u0433", "s": "\u0455"}
FOREIGN = list("0OIl +-_/=.,:;!?\t\n\r\0\x7f\"'\\#") + ["\u0430", "\uff11", "\u0661", "\u00e9", "\u200b", "\ufeff", "\U0001d7cf", "\u212a", "\u017f"]


@st.composite
def edit(draw, text, alphabet=ref.B58):
    n = len(text)
    i = draw(st.integers(0, max(0, n - 1)))
    j = draw(st.integers(0, max(0, n - 1)))
    kind = draw(st.integers(0, 25))
    sym = draw(st.sampled_from(alphabet))
    if kind <= 5:                                   # one wrong character
        return text[:i] + sym + text[i + 1:]
    if kind <= 7 and n > 1:                         # neighbours swapped
        i = min(i, n - 2)
        return text[:i] + text[i + 1] + text[i] + text[i + 2:]
    if kind == 8:
        return text[:i] + text[i + 1:]
    if kind == 9:
        return text[:i] + sym + text[i:]
    if kind == 10:
        return text[:i] + text[i:i + 1].swapcase() + text[i + 1:]
    if kind == 11:
        return draw(st.sampled_from([text.upper(), text.lower(), text.swapcase()]))
    if kind == 12:
        at = [k for k, c in enumerate(text) if c in LOOKALIKE]
        if at:
            k = draw(st.sampled_from(at))
            return text[:k] + draw(st.sampled_from(LOOKALIKE[text[k]])) + text[k + 1:]
        return text + "0"
    if kind == 13:
        return text[:i] + draw(st.sampled_from(FOREIGN)) + text[i + 1:]
    if kind == 14:
        return text[:i] + draw(st.sampled_from(FOREIGN)) + text[i:]
    if kind == 15:
        f = draw(st.sampled_from(FOREIGN))
        return draw(st.sampled_from([f + text, text + f, f + text + f]))
    if kind in (16, 17):
        # the same number written with a foreign digit: (d, last) -> (d+1, -1), (d, 0) -> (d-1, 58)
        at = [k for k in range(n - 1) if text[k] in alphabet and alphabet.index(text[k]) < 57 and text[k + 1] == alphabet[57]]
        bad = draw(st.sampled_from(FOREIGN))
        if at:
            k = draw(st.sampled_from(at))
            return text[:k] + alphabet[alphabet.index(text[k]) + 1] + bad + text[k + 2:]
        return alphabet[0] + text
    if kind == 18:
        return alphabet[0] * draw(st.integers(1, 3)) + text
    if kind == 19:
        return text[draw(st.integers(1, 4)):]
    if kind == 20:
        return text[:-draw(st.integers(1, 8))]
    if kind == 21:
        return text + draw(st.text(alphabet=alphabet, min_size=1, max_size=4))
    if kind == 22:
        return text[:min(i, j)] + text[max(i, j):]
    if kind == 23:
        return text + text if i % 2 else text[:i] + text[i:i + 1] * 2 + text[i + 1:]
    if kind == 24:                                  # another block of the same length
        k = draw(st.integers(1, 6))
        return text[:i] + draw(st.text(alphabet=alphabet, min_size=k, max_size=k)) + text[i + k:]
    return text[j:] + text[:j]


def rechecksum(draw, text, alphabet=ref.B58):
    """The same payload under another checksum."""
    raw = ref.b58d(text, alphabet)
    kind = draw(st.integers(0, 8))
    chk = bytearray(raw[-4:])
    if kind <= 2:
        k = draw(st.integers(0, 3))
        chk[k] ^= 1 << draw(st.integers(0, 7))
    elif kind == 3:
        chk = chk[::-1]
    elif kind >= 6:
        chk = draw(near_hash(raw[-4:]))
    elif kind == 4:
        chk = bytes(4)
    else:
        chk = draw(st.sampled_from([ref.sha256(raw[:-4])[:4], ref.dsha(raw[:-4])[4:8], ref.dsha(raw[:-4])[-4:], b""]))
    return ref.b58e(raw[:-4] + bytes(chk), alphabet)


@st.composite
def cases(draw, lib):
    kind = draw(st.sampled_from(["plain", "ec", "confirm", "inter", "wif", "wif", "address"]))
    alphabet = ref.B58
    if kind in ("plain", "wif", "address"):
        case = draw(plain_cases(lib, stub=False))
    else:
        case = draw(ec_cases(lib, stub=False))
    spec, net = case["coin"], case["net"]
    wp, ap = coins(lib).prefixes(spec, net)
    comp = case["compressed"]
    case["kind"] = kind
    if kind in ("plain", "wif", "address"):
        key = B(case["key"])
        if kind == "plain":
            code = ref.encrypt(key, comp, ap, case["pass"])
        elif kind == "wif":
            code = ref.wif(key, wp, comp)
        else:
            alphabet = draw(st.sampled_from([ref.B58, ref.B58, ref.RIPPLE]))
            case["alphabet"] = alphabet
            code = ref.address(ref.mul_g(int.from_bytes(key, "big")), ap, comp, alphabet)
    else:
        code = ref.intermediate(case["pass"], B(case["salt"]), case["lot"], case["seq"])
        if kind != "inter":
            made = ref.create(code, B(case["seeds"][0]), comp, ap)
            code = made["encrypted_wif" if kind == "ec" else "confirmation_code"]
    case["code"] = code
    if draw(st.sampled_from([False, False, True])):
        text = rechecksum(draw, code, alphabet)
        case["how"] = "checksum"
    else:
        text = code
        for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
            text = draw(edit(text, alphabet))
        case["how"] = "text"
    if text == code:
        text = code[:-1] + ("2" if code[-1] != "2" else "3")
    case["text"] = text
    case["first"] = draw(st.booleans())
    return case


def operations(lib, case, text):
    """{name: thunk}: every operation taking a code of the case's kind, given this text."""
    kind, p = case["kind"], case["pass"]
    spec, net = case["coin"], case["net"]
    wp, ap = coins(lib).prefixes(spec, net)
    cls = coins(lib).cls(spec)
    one, kw = instance(lib, spec, net, case["per_call"])
    if kind in ("plain", "ec"):
        return {"decrypt": lambda: one.decrypt(text, p, **kw), "decrypt with detail": lambda: one.decrypt(text, p, detail=True, **kw)}
    if kind == "confirm":
        return {"confirm_code": lambda: one.confirm_code(p, text, **kw),
                "confirm_code with detail": lambda: one.confirm_code(p, text, detail=True, **kw)}
    if kind == "inter":
        t = wif_type(case["compressed"])
        return {"create_new_encrypted_wif": lambda: one.create_new_encrypted_wif(text, t, case["seeds"][0], **kw),
                "create_new_encrypted_wif without seed": lambda: one.create_new_encrypted_wif(text, t, **kw)}
    if kind == "wif":
        w = lib.wif
        return {"encrypt": lambda: one.encrypt(text, p, **kw), "decode_wif": lambda: w.decode_wif(text, wp),
                "wif_to_private_key": lambda: w.wif_to_private_key(text, cls, net),
                "get_wif_type": lambda: w.get_wif_type(text, cls, net), "get_wif_checksum": lambda: w.get_wif_checksum(text, cls, net)}
    alphabet = case.get("alphabet", ref.B58)
    ops = {"P2PKHAddress.decode": lambda: lib.P2PKH.decode(text, address_prefix=ap, alphabet=alphabet)}
    if alphabet == ref.B58:
        ops["P2PKHAddress.decode, default alphabet"] = lambda: lib.P2PKH.decode(text, address_prefix=ap)
    return ops


def check(case, ctx):
    lib = ctx.lib
    kind, text, code = case["kind"], case["text"], case["code"]
    alphabet = case.get("alphabet", ref.B58)
    if ref.b58cd(text, alphabet) is not None:
        ctx.label("well-formed after all (skipped)")
        return
    what = "%s code %a edited to %a: " % (kind, code, text)
    if case.get("first"):
        for op, run in operations(lib, case, code).items():
            ctx.value(call(run), "%s of the genuine %s code %a" % (op, kind, code))
        ctx.label("after use of the genuine code")
        what += "after the genuine code was used: "
    for op, run in operations(lib, case, text).items():
        ctx.refused(call(run), what + op, Exception)
    ctx.label(kind)
    ctx.label("only the checksum changed" if case["how"] == "checksum" else "text edited")
    if any(c not in alphabet for c in text):
        ctx.label("character outside the alphabet")
    if len(text) == len(code):
        ctx.label("same length")
    ctx.nontrivial(abs(len(text) - len(code)) <= 2)


def base_codes():
    """One code of each kind, and the parts of a case around it."""
    key = bytes.fromhex("cbf4b9f70470856bb4f40f80b87edb90865997ffee6df315ab166d713af433a5")
    salt, seed = bytes.fromhex("75ed1cdeb254cb38"), bytes.fromhex("99241d58245c883896f80843d2846672d7312e6195ca1a6c")
    base = {"coin": "Bitcoin", "net": "mainnet", "per_call": False, "pass": "p", "compressed": True, "seeds": [seed.hex()], "how": "text"}
    inter = ref.intermediate("p", salt, 199999, 1)
    made = ref.create(inter, seed, True, 0)
    codes = {"plain": ref.encrypt(key, True, 0, "p"), "ec": made["encrypted_wif"], "confirm": made["confirmation_code"],
             "inter": inter, "wif": ref.wif(key, 0x80, True), "address": ref.address(ref.mul_g(int.from_bytes(key, "big")), 0, True)}
    return base, codes


def every_char_case(ctx):
    """Characters of every sort, foreign to Base58, put into, before, after and in the place of a character of a code."""
    u = gens.unicodedata
    base, codes = base_codes()
    chars = []
    for c in map(chr, range(0x110000)):
        cat = u.category(c)
        if c in ref.B58 or cat in ("Cs", "Co", "Cn") and ctx.tier == "quick" and not 0xFFF0 <= ord(c) <= 0xFFFF:
            continue
        folds = any(t != c and t and all(x in ref.B58 for x in t) for t in (u.normalize("NFKC", c), u.normalize("NFKD", c)[:1], c.casefold(), c.upper(), c.lower()))
        if ctx.tier != "quick" or cat[0] in "CZPS" or folds or ord(c) < 0x250 or cat[0] == "M" and ord(c) % 7 == 0 or cat == "Nd":
            chars.append(c)
    for kind, code in codes.items():
        for i in range(0, len(chars), 64):
            yield dict(base, kind=kind, code=code, chars=chars[i:i + 64])


def check_chars(case, ctx):
    lib, code = ctx.lib, case["code"]
    u = gens.unicodedata
    for n, c in enumerate(case["chars"]):
        at = 1 + (ord(c) * 7 + n) % (len(code) - 2)
        texts = [code[:at] + c + code[at:], code + c, c + code, code[:at] + c + code[at + 1:]]
        for t in {u.normalize("NFKC", c), u.normalize("NFKD", c)[:1], c.casefold(), c.upper(), c.lower()}:
            if t and t in code:             # in the place of the character that it resembles
                texts.append(code.replace(t, c, 1))
                texts.append(c.join(code.rsplit(t, 1)))
                texts.append(code.replace(t, c))
        for text in texts:
            for op, run in operations(lib, case, text).items():
                if text != code:
                    ctx.refused(call(run), "%s code %a edited to %a: %s" % (case["kind"], code, text, op), Exception)
    ctx.label(case["kind"])
    ctx.nontrivial(True)


def every_edit(ctx):
    """All single character replacements, deletions, insertions and swaps of one code of each kind."""
    base, codes = base_codes()
    for kind, code in codes.items():
        texts = {code[:i] + code[i + 1:] for i in range(len(code))}
        texts |= {code[:i] + code[i + 1:i + 2] + code[i] + code[i + 2:] for i in range(len(code))}
        for c in ref.B58 + "0OIl ":
            texts |= {code[:i] + c + code[i + 1:] for i in range(len(code))}
        for c in "1z0 ":
            texts |= {code[:i] + c + code[i:] for i in range(len(code) + 1)}
        raw = ref.b58d(code)
        texts |= {ref.b58e(raw[:-4 + k] + bytes([raw[-4 + k] ^ 1 << b]) + (raw[-4 + k + 1:] if k < 3 else b""))
                  for k in range(4) for b in range(8)}
        for text in sorted(texts - {code}):
            yield dict(base, kind=kind, code=code, text=text)


def spelling_cases(ctx):
    """A code as people write it: in groups, in quotes, with a scheme before it, and in other codings."""
    base, codes = base_codes()
    for kind, code in codes.items():
        raw = ref.b58d(code)
        yield dict(base, kind=kind, code=code, texts=[s.join(code[i:i + k] for i in range(0, len(code), k)) for s in ("-", " ") for k in range(1, 30)])
        for s in list("-_.,:;/|+*~=&#'\"\t\n\r\v\f\0`^\\") + ["\r\n", "  ", "\u00a0", "\u2013", "\u2014", "\u00b7", "\u2009", "\u200b", "\u3000", ", ", "- ", "=\n", "\\\n", "%20"]:
            yield dict(base, kind=kind, code=code, texts=[s.join(code[i:i + k] for i in range(0, len(code), k)) for k in (1, 4, 5, 8, 10, 16, 29)] +
                       [code + s, s + code, s + code + s, code + s + code, code[:len(code) // 2] + s + code[len(code) // 2:], code + s * 3])
        yield dict(base, kind=kind, code=code, texts=[
            a + code + b for a, b in ("''", '""', "()", "[]", "<>", "{}", ("b'", "'"), ("\u201c", "\u201d"), ("\u00ab", "\u00bb"), ("*", "*"), ("`", "`"), ("", "?amount=1"),
                                      ("", "#mine"), ("", " # mine"), ("bitcoin:", ""), ("bip38:", ""), ("wif:", ""), ("wif=", ""), ("0x", ""), ("0b", ""), ("key ", ""),
                                      ("bitcoin://", ""), ("https://example.org/", ""), ("6P:", ""), ("\ufeff", ""), ("+", ""), ("-", ""), ("", "\0" * 8), ("", "=="),
                                      ("", "\x1a"), ("", "\x04"), ("", "..."), ("1", "1"), ("", "L"), ("", "j"), ("", "u"), ("", "1" * 100), ("1" * 100, ""))])
        import base64
        yield dict(base, kind=kind, code=code, texts=[
            raw.hex(), raw.hex().upper(), "0x" + raw.hex(), raw[:-4].hex(), raw.decode("latin-1"), raw[:-4].decode("latin-1"), base64.b64encode(raw).decode(), base64.b32encode(raw).decode(),
            base64.b64encode(raw).decode().rstrip("="), base64.urlsafe_b64encode(raw).decode(), base64.b85encode(raw).decode(), str(int.from_bytes(raw, "big")),
            repr(code), ascii(code), repr(code.encode()), code.encode().hex(), base64.b64encode(code.encode()).decode(), "".join("%%%02x" % ord(c) for c in code),
            "".join(chr(ord(c) + 0xFEE0) for c in code), code[::-1], code.upper(), code.lower(), code.swapcase(), code.title(), code.translate(str.maketrans(ref.B58, ref.RIPPLE)),
            ref.b58e(raw, ref.RIPPLE), ref.b58e(raw[:-4]), ref.b58ce(raw), ref.b58ce(raw[:-4][::-1]), ref.b58e(raw[::-1]), code * 2, code * 10, code[:-1] + "\u0301", ""])


def check_spellings(case, ctx):
    for text in case["texts"]:
        if text == case["code"]:
            continue
        for op, run in operations(ctx.lib, case, text).items():
            ctx.refused(call(run), "%s code %a written as %a: %s" % (case["kind"], case["code"], text, op), Exception)
    ctx.label(case["kind"])
    ctx.nontrivial()


UNITS = [
    Unit("spellings", "stub", check_spellings, cases=spelling_cases, shards=1, tshards=2),
    Unit("edits", "stub", check, gen=cases, quick=14000, thorough=400000, shards=5, tshards=8),
    Unit("every single edit", "stub", check, cases=every_edit, shards=3, tshards=4),
    Unit("every character", "stub", check_chars, cases=every_char_case, shards=4, tshards=8),
    Unit("scrypt", "real", check, gen=cases, quick=24, thorough=600, shards=1, tshards=8),
]
