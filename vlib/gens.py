"""Hypothesis strategies for the domains the properties quantify over.

Everything is drawn through Hypothesis; values are JSON (bytes as hex text).
"""
import ast
import json
import os
import re
import unicodedata

from hypothesis import strategies as st

from vlib import env, ref

HERE = os.path.dirname(os.path.abspath(__file__))


def pick(*weighted):
    """one_of with weights: pick((3, a), (1, b))."""
    return st.one_of([s for w, s in weighted for _ in range(w)])


# ------------------------------------------------------------------ constants of the code under test
class Harvest:
    """Integers and texts that occur in the code under test: special cases hide behind constants."""

    def __init__(self):
        self.ints, self.texts = set(), set()
        root = os.path.join(env.REPO, "bip38")
        for folder, _dirs, files in sorted(os.walk(root)):
            for name in sorted(files):
                if name.endswith(".py") and name != "cryptocurrencies.py":
                    try:
                        with open(os.path.join(folder, name), encoding="utf-8") as f:
                            self.scan(ast.parse(f.read()))
                    except (SyntaxError, ValueError):
                        pass
        self.lengths = sorted({n + d for n in self.ints if 0 <= n <= 4096 for d in (-1, 0, 1) if n + d >= 0})
        self.small = sorted(n for n in self.ints if 0 <= n < 2**32)
        self.big = sorted(n for n in self.ints if n >= 2**32)
        self.words = sorted(t for t in self.texts if 0 < len(t) <= 64)
        self.bytes = sorted({ref.int_bytes(n) for n in self.ints if n >= 0})

    def scan(self, tree):
        docs = set()
        for node in ast.walk(tree):
            body = getattr(node, "body", None)
            if isinstance(body, list) and body and isinstance(body[0], ast.Expr):
                docs.add(id(body[0].value))
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and id(node) not in docs:
                v = node.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    self.ints.add(v)
                elif isinstance(v, str):
                    self.texts.add(v)
                elif isinstance(v, bytes):
                    self.texts.add(v.decode("latin-1"))
                    if len(v) <= 40:
                        self.ints.add(int.from_bytes(v, "big"))


HARVEST = Harvest()
# environment variables that the code mentions
ENV_NAMES = [t for t in sorted(HARVEST.texts) if re.fullmatch("[A-Z][A-Z0-9_]{3,60}", t) and t not in os.environ
             and not re.match("PYTHON|LD_|LC_|LANG|HOME|TMP|TEMP|BIP38_VERIF|VERIF_", t)]


def _nonempty(seq, default):
    return st.sampled_from(seq) if seq else st.just(default)


# ------------------------------------------------------------------ private keys
NMAX = ref.N - 1


def _h32(n):
    return (n % ref.N or 1).to_bytes(32, "big").hex()


def _data(name):
    with open(os.path.join(HERE, "data", name)) as f:
        return json.load(f)


MINED = _data("mined.json")
# [compressed, key, key]: the address hashes of the two (version 0) agree in part
PAIRS = _data("pairs.json")


@st.composite
def _patterned_key(draw):
    kind = draw(st.integers(0, 11))
    if kind == 0:
        b = draw(st.binary(min_size=1, max_size=4)).rjust(32, b"\0")
    elif kind == 1:
        k = draw(st.integers(1, 31))
        b = bytes(k) + draw(st.binary(min_size=32 - k, max_size=32 - k))
    elif kind == 2:
        k = draw(st.integers(1, 31))
        b = draw(st.binary(min_size=32 - k, max_size=32 - k)) + bytes(k)
    elif kind == 3:
        b = draw(st.binary(min_size=16, max_size=16)) + bytes(16)
    elif kind == 4:
        b = bytes(16) + draw(st.binary(min_size=16, max_size=16))
    elif kind == 5:
        b = ((1 << draw(st.integers(0, 255))) + draw(st.integers(-1, 1))).to_bytes(33, "big")[-32:]
    elif kind == 6:
        b = draw(st.text(alphabet="0123456789abcdefABCDEF", min_size=32, max_size=32)).encode()
    elif kind == 7:
        b = bytes([draw(st.integers(0, 255))]) * 32
    elif kind == 8:
        tail = draw(st.sampled_from([b"\x01", b"\x01\x01", b"\x00\x01", b"\x01\x00", b"\x80", b"\xff"]))
        b = draw(st.binary(min_size=32 - len(tail), max_size=32 - len(tail))) + tail
    elif kind == 9:
        head = draw(st.sampled_from([b"\x80", b"\xef", b"\x00\x80", b"\x80\x80", b"\x01", b"\x00\x01"]))
        b = head + draw(st.binary(min_size=32 - len(head), max_size=32 - len(head)))
    elif kind == 10:
        c = draw(_nonempty(HARVEST.bytes, b"\x01"))[:32]
        at = draw(st.integers(0, 32 - len(c)))
        b = draw(st.binary(min_size=32, max_size=32))
        b = b[:at] + c + b[at + len(c):]
    else:
        b = (ref.N - draw(st.integers(1, 300))).to_bytes(32, "big")
    return _h32(int.from_bytes(b, "big"))


def uniform32():
    return st.binary(min_size=32, max_size=32).map(lambda b: _h32(int.from_bytes(b, "big")))


def privkeys():
    parts = [(5, uniform32()), (4, _patterned_key()),
             (1, st.integers(1, 300).map(_h32)), (1, st.integers(1, 300).map(lambda i: _h32(ref.N - i)))]
    if MINED.get("keys"):
        parts.append((2, st.sampled_from(sorted(MINED["keys"]))))
    return pick(*parts)


# ------------------------------------------------------------------ passphrases
SPECIAL_TEXT = [
    "", " ", "  ", "\t", "\n", "\r\n", "\0", "\0\0", "a\0b", "\0a", " lead", "trail ", "trail\n", "\ttab", "mid  dle",
    "0x1234", "0X12", "00", "0", "deadbeef", "DEADBEEF", "75ed1cdeb254cb38", "TestingOneTwoThree", "testingonetwothree",
    "Satoshi", "MOLON LABE", "ΜΟΛΩΝ ΛΑΒΕ", "\u03d2\u0301\u0000\U00010400\U0001f4a9", "None", "null", "True", "false",
    "correct horse battery staple", "pässwörd", "pa\u0308sswo\u0308rd", "Ångström", "\u212bngstro\u0308m",
    "A\u030angstro\u0308m", "\u1112\u1161\u11ab\u1100\u1173\u11af", "한글", "\u1e9b\u0323", "\u1e69", "s\u0323\u0307",
    "s\u0307\u0323", "d\u0323\u0307", "\u03a9", "\u2126", "\u212a", "K", "\ufb01sh", "fish", "①②③", "123", "Ⅷ", "ＡＢＣ",
    "ABC", "ｱｲｳ", "アイウ", "ﷺ", "\u0344", "\u0308\u0301", "\u0958", "\u0915\u093c", "\u2adc", "\u2add\u0338", "\uf900",
    "\u8c48", "\U0002f800", "\u4e3d", "\u1d15e", "\U0001d15e", "\u00e9", "e\u0301", "E\u0301", "\u200b", "a\u200bb",
    "a\u00adb", "\ufeffbom", "a\u200db", "a\u034fb", "\ufe0f", "❤️", "❤", "👨‍👩‍👧", "🇨🇭", "ß", "ss", "SS", "ẞ", "ı", "i", "İ", "I",
    "ς", "σ", "Σ", "ǆ", "ǅ", "x²", "x2", "a\u00a0b", "a b", "a\u2003b", "\u1680", "\u3000", "\x1f", "\x7f", "\x80", "\x85",
    "\u2028", "\u2029", "\ufffd", "\ufffe", "\uffff", "\U0010ffff", "\U000e0041", "ab" * 16, "a" * 63, "a" * 64, "a" * 65,
    "é" * 32, "é" * 33, "e\u0301" * 22, "😀" * 16, "😀" * 17, "a" * 72, "a" * 73, "a" * 127, "a" * 128, "a" * 129,
    "a" * 255, "a" * 256, "a" * 257, "5KN7MzqK5wt2TP1fQCYyHBtDrXdJuXbUzm4A9rKAteGu3Qi5CVR",
    "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", "passphrase", "6P", "cfrm", "%s%d", "{0}", "\\x00",
    "\\u0041", "a\\", "'", '"', "`$(x)`", "..", "~", "é" * 500, "x" * 1000,
]


def _clean(s):
    return s.encode("utf-8", "ignore").decode("utf-8")


def any_text(max_size=40):
    return st.text(st.characters(exclude_categories=["Cs"]), max_size=max_size)


def long_text():
    sizes = [60, 63, 64, 65, 71, 72, 73, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513, 600, 1000,
             1023, 1024, 1025, 2048, 4096]
    sizes = sorted(set(sizes) | {n for n in HARVEST.lengths if 20 < n <= 4096})
    return st.tuples(st.text(st.characters(exclude_categories=["Cs"]), min_size=1, max_size=6), st.sampled_from(sizes),
                     st.text(st.characters(exclude_categories=["Cs"]), max_size=3)).map(
        lambda t: ((t[0] * (t[1] // len(t[0]) + 1))[:max(0, t[1] - len(t[2]))] + t[2]))


def combining_text():
    """Texts in which normalisation has something to do."""
    bases = "aAeEiIoOuUcCnNsSdDkKyYzZ한각\u1112\u1161\u11ab\u1100\u1161\u0915\u05d0\u0627\u03b1\u03a9\u0438\u304b\u2126\u212b\u212aㅎ"
    marks = "\u0300\u0301\u0302\u0303\u0308\u030a\u0304\u0306\u0307\u0323\u0327\u0328\u031b\u0345\u093c\u05b4\u0653\u0654\u3099\u309a\u1161\u11ab\u0344\u0340\u0341\u0338"
    return st.lists(st.tuples(st.sampled_from(list(bases) + ["é", "Å", "ǭ", "ṩ", "ệ", "x", " "]),
                              st.text(alphabet=marks, max_size=3)), min_size=1, max_size=8).map(
        lambda ps: "".join(b + m for b, m in ps))


# Texts that are often taken for one another, but are not NFC equivalent.
LOOSE = ["' \u2019", "' \u2018", "' \u00b4", "' `", '" \u201c', '" \u201d', '" \u00ab', "- \u2013", "- \u2014", "- \u2010", "- \u2011", "- \u2212", "- \u00ad",
         "- _", "- \u30fc", "... \u2026", ". \u3002", ". \u00b7", ", \uff0c", ", \u060c", "! \uff01", "? \u061f", "/ \\", "/ \u2044", "\\ \\\\",
         "~ \u02dc", "* \u2217", "e \u0435", "a \u0430", "o \u03bf", "o 0", "O 0", "l 1", "l I", "i \u0131", "I \u0130", "s \u017f", "ss \u00df", "\u00df \u1e9e",
         "\u03c2 \u03c3", "ae \u00e6", "oe \u0153", "ue \u00fc", "u \u00fc", "\u0451 \u0435", "n \u00f1", "d \u0111", "l \u0142", "0 \u0660", "1 \u0967",
         "1 \u2460", "2 \u00b2", "fi \ufb01", "1/2 \u00bd", "& &amp;", "< &lt;", '" &quot;', "' &#39;", "% %25", "+ %2B", "@ %40", "\\n \n", "\\t \t",
         "\U0001f600 \U0001f600\ufe0f", "\u2764 \u2764\ufe0f", "\U0001f44d \U0001f44d\U0001f3fd", "\u3084 \u30e4", "\u30e4 \uff94", "\u540e \u5f8c",
         "\u00b5 \u03bc", "\u00d7 x", "\u20ac \u00a4", "\u00a5 \\", "$ \uff04", "\u0643 \u06a9", "\u064a \u06cc", "\u0623 \u0627", "\u05d0\u05b8 \u05d0",
         "\u200d \u200c", "\u0130 i\u0307", "\u01c4 D\u017d", "\u0149 \u02bcn", "\ufffd ?", "? \u00e9", "\U0001f1e9\U0001f1ea DE"]
LOOSE = [tuple(t.split(" ")) for t in LOOSE]
SPACES = " \t\n\r\v\f\x1c\x1f\x85\u00a0\u1680\u2000\u2003\u2009\u200b\u2028\u202f\u205f\u2060\u3000\ufeff\u00ad\u180e"
MARKS = "\u0301\u0323\u0334\u0308\u3099\u064b"
WORDS = "abandon ability zoo zebra legal winner thank year wave sausage worth useful Correct horse battery staple caf\u00e9 \u00fcber \u03b1\u03b2\u03b3 7 42".split()


def _mangled(p):
    """Other readings of a text: encodings mixed up, escapes undone, quotes and padding removed."""
    import base64
    import html
    import urllib.parse
    res = []
    for f in (lambda: p.encode("utf-8").decode("latin-1"), lambda: p.encode("utf-8").decode("cp1252"), lambda: p.encode("latin-1").decode("utf-8"),
              lambda: p.encode("unicode_escape").decode(), lambda: p.encode("utf-16-le").decode("latin-1"), lambda: p.encode("ascii", "ignore").decode(),
              lambda: p.encode("ascii", "replace").decode(), lambda: p.encode("ascii", "xmlcharrefreplace").decode(), lambda: urllib.parse.quote(p),
              lambda: urllib.parse.unquote(p), lambda: html.escape(p), lambda: html.unescape(p), lambda: base64.b64encode(p.encode()).decode(),
              lambda: base64.b64encode(p.encode()).decode().rstrip("="), lambda: p.encode().hex(), lambda: p.encode().hex().upper(),
              lambda: bytes.fromhex(p).decode("utf-8"), lambda: bytes.fromhex(p).decode("latin-1"), lambda: ref.sha256(p.encode()).hex(), lambda: repr(p), lambda: '"%s"' % p,
              lambda: "b" + repr(p), lambda: json.dumps(p), lambda: p.encode("idna").decode(), lambda: p.encode("punycode").decode(), lambda: p.strip("\"' "),
              lambda: p.replace("\r\n", "\n"), lambda: p.replace("\n", "\r\n"), lambda: p.expandtabs(), lambda: "\ufeff" + p,
              lambda: p.replace(" ", ""), lambda: "".join(c for c in p if c.isalnum()), lambda: "".join(c for c in p if c.isprintable()),
              lambda: "".join(c for c in p if ord(c) < 0x10000), lambda: "".join(c for c in p if ord(c) < 256), lambda: "".join(c for c in p if ord(c) >= 32),
              lambda: p.splitlines()[0], lambda: " ".join(sorted(p.split())), lambda: p.split("\0")[0], lambda: p.split("#")[0], lambda: p.swapcase(),
              lambda: p.lower(), lambda: p.upper(), lambda: p.casefold(), lambda: p.capitalize()):
        try:
            q = f()
        except (ValueError, IndexError, UnicodeError):
            continue
        if q != p:
            res.append(q)
    return res


@st.composite
def loose_pairs(draw):
    """Two texts that a looser matching than by NFC would take for one another."""
    kind = draw(st.sampled_from([0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 6, 7]))
    part = st.one_of(st.text("abcXYZ019 '-", max_size=6), any_text(4), combining_text())
    if kind == 0:                               # look-alikes in between
        x, y = draw(st.sampled_from(LOOSE))
        parts = draw(st.lists(part, min_size=2, max_size=4))
        return x.join(parts), y.join(parts)
    if kind == 1:                               # another space, or none, between words and around them
        words = draw(st.lists(st.one_of(st.sampled_from(WORDS), part), min_size=1, max_size=6))
        one, two = draw(st.sampled_from(SPACES)), draw(st.sampled_from(list(SPACES) + ["", "  ", "\r\n", " \n"]))
        return draw(st.sampled_from([(" ".join(words), two.join(words)), (one.join(words), two.join(words)),
                                     (" ".join(words), " ".join(words) + one), (" ".join(words), one + " ".join(words)),
                                     (" ".join(words), " ".join(words)[:1] + one + " ".join(words)[1:])]))
    if kind == 2:                               # hexadecimal, base 64 and other forms of binary secrets
        import base64
        n = draw(st.sampled_from([4, 8, 12, 16, 16, 20, 24, 32, 32, 32, 33, 40, 48, 64, 65]))
        b = draw(st.binary(min_size=n, max_size=n))
        if draw(st.booleans()):
            b = bytes(draw(st.integers(1, n))) + b
            b = b[:n]
        h, e = b.hex(), base64.b64encode(b).decode()
        pairs = [(h, h.upper()), (h, h.upper()), (h, "0x" + h), (h, h.lstrip("0")), (h, h[::2]), (h, " ".join(h[i:i + 2] for i in range(0, len(h), 2))),
                 (h, "-".join(h[i:i + 8] for i in range(0, len(h), 8))), (h, e), (e, e.rstrip("=")), (e, e.swapcase()), (e, e.translate({43: 45, 47: 95})),
                 (h, b.decode("latin-1")), (h, "".join(c.upper() if i % 3 else c for i, c in enumerate(h)))]
        return draw(st.sampled_from(pairs))
    if kind == 3:                               # numbers
        d = draw(st.integers(0, 10**draw(st.sampled_from([4, 6, 10, 20, 40]))))
        s = str(d)
        return draw(st.sampled_from([(s, "0" + s), (s, "+" + s), (s, s + ".0"), (s, "%04d" % d if d < 1000 else s + " "), (s, "{:,}".format(d)), (s, hex(d)),
                                     (s, s.translate({48 + i: 0xFF10 + i for i in range(10)})), (s, s.translate({48 + i: 0x660 + i for i in range(10)}))]))
    if kind == 4:                               # runs of combining marks
        base, m = draw(st.sampled_from("aeK\u0915 \u05d0")), draw(st.text(MARKS, min_size=1, max_size=2))
        n = draw(st.sampled_from([1, 2, 3, 4, 8, 15, 16, 17, 29, 30, 31, 32, 33, 40, 63, 64, 65, 100, 128, 130, 256, 260, 1000]))
        p = base + m * n
        return draw(st.sampled_from([(p, p + m[-1]), (p, p[:-1]), (p + "z", p + m[-1] + "z"), (p, base + m * (n // 2) + "\u034f" + m * (n - n // 2))]))
    if kind == 5:                               # words, as in a mnemonic
        words = draw(st.lists(st.sampled_from(WORDS), min_size=2, max_size=24))
        p = " ".join(words)
        return draw(st.sampled_from([(p, " ".join(w[:4] for w in words)), (p, " ".join(sorted(words))), (p, p.title()), (p, "".join(words)), (p, " ".join(words[::-1])),
                                     (p, " ".join(dict.fromkeys(words))), (p, ", ".join(words)), (p, "-".join(words)), (p, p + ".")]))
    p = draw(st.one_of(part, st.sampled_from(SPECIAL_TEXT), st.lists(st.sampled_from(WORDS + ["<b>", "&", "%41", "\\x41", '"', "\n", "me@Example.org", "#1", "\0"]),
                                                                     min_size=1, max_size=5).map(" ".join)))
    if kind == 6:
        res = _mangled(p)
        return p, draw(st.sampled_from(res)) if res else p + " "
    n = draw(st.sampled_from([31, 32, 55, 56, 63, 64, 65, 71, 72, 73, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096]))
    unit = draw(part) or "q"                    # long texts that differ late
    long = (unit * (n // len(unit) + 1))[:n]
    return draw(st.sampled_from([(long, long + "x"), (long + "x", long + "y"), (long[:-1], long), (long + "xx", long + "yx")]))


def loose_text():
    """One of two such texts."""
    return st.tuples(loose_pairs(), st.integers(0, 1)).map(lambda t: t[0][t[1]])


def passphrases(stub=True):
    parts = [(4, st.sampled_from(SPECIAL_TEXT)), (3, any_text()), (3, combining_text()),
             (3, st.text(alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !-_", max_size=24)),
             (2, long_text()), (1, _nonempty(HARVEST.words, "wif")), (2, loose_text()),
             (1, st.binary(min_size=1, max_size=40).map(lambda b: b.hex())),
             (1, st.tuples(st.sampled_from(["", " ", "\n", "\t", "\0", "\u00a0", "\u3000", "\ufeff", "\u200b"]), any_text(12),
                           st.sampled_from(["", " ", "\n", "\r", "\0", "\u00a0", "\u3000", "\u200b", "\u0301"])).map("".join))]
    return pick(*parts).map(_clean)


# ------------------------------------------------------------------ salts, seeds, lots
def _bytes_of(size):
    pat = st.one_of(
        st.integers(1, size).flatmap(lambda k: st.binary(min_size=size - k, max_size=size - k).map(lambda b: bytes(k) + b)),
        st.integers(1, size).flatmap(lambda k: st.binary(min_size=size - k, max_size=size - k).map(lambda b: b + bytes(k))),
        st.integers(0, 255).map(lambda v: bytes([v]) * size),
        st.text(alphabet="0123456789abcdefABCDEF", min_size=size, max_size=size).map(str.encode),
        st.binary(min_size=size, max_size=size).map(lambda b: b[:4] + bytes(max(0, size - 4)) if size > 4 else b),
        st.tuples(_nonempty(HARVEST.bytes, b"\x01"), st.binary(min_size=size, max_size=size), st.integers(0, size - 1)).map(
            lambda t: (t[1][:t[2]] + t[0] + t[1])[:size]),
    )
    return pick((3, st.binary(min_size=size, max_size=size)), (2, pat)).map(bytes.hex)


def raw_bytes(size):
    """Bytes of a length, often such that they read as hexadecimal, decimal, base 64 or base 58 text."""
    if not size:
        return st.just(b"")
    letters = st.sampled_from(["0123456789abcdef", "0123456789ABCDEF", "0123456789", ref.B58, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"])
    text = st.tuples(letters, st.binary(min_size=size, max_size=size)).map(lambda t: "".join(t[0][b % len(t[0])] for b in t[1]).encode())
    return pick((2, st.binary(min_size=size, max_size=size)), (2, text))


def salts8(stub=True):
    parts = [(5, _bytes_of(8))]
    if stub:
        parts.append((2, st.tuples(st.integers(0, 15), st.binary(min_size=4, max_size=4)).map(
            lambda t: (env.steer_salt(t[0]) + t[1]).hex())))
    return pick(*parts)


def salts4(stub=True):
    parts = [(5, _bytes_of(4))]
    if stub:
        parts.append((2, st.integers(0, 15).map(lambda r: env.steer_salt(r).hex())))
    return pick(*parts)


def seeds():
    parts = [(5, _bytes_of(24))]
    if MINED.get("seeds"):
        parts.append((2, st.sampled_from(sorted(MINED["seeds"]))))
    return pick(*parts)


def lots():
    return pick((3, st.integers(100000, 999999)), (1, st.sampled_from([100000, 100001, 999999, 999998, 263183, 806938, 131072,
                262144, 524288, 524287, 567885, 1 << 19, 0xFFFFF // 2, 655360, 696320, 409600, 458752])),
                (1, st.integers(98, 3906).map(lambda k: min(999999, max(100000, k * 256)))),
                (1, _nonempty([n for n in HARVEST.small if 100000 <= n <= 999999], 100000)))


def sequences():
    return pick((3, st.integers(0, 4095)), (2, st.sampled_from([0, 1, 2, 255, 256, 257, 4094, 4095, 2048, 2047, 4080, 15, 16])),
                (1, _nonempty([n for n in HARVEST.small if n <= 4095], 1)))


# ------------------------------------------------------------------ coins
class Coins:
    """The coin/network combinations of the code under test, as found when it was loaded."""

    def __init__(self, lib):
        base = lib.cryptocurrencies.ICryptocurrency
        self.base = base
        self.all = []
        self.table = {}
        self.own_alphabet = set()
        for name, cls in sorted(vars(lib.cryptocurrencies).items()):
            if isinstance(cls, type) and issubclass(cls, base) and cls is not base:
                nets = {}
                for net, v in cls.NETWORKS.items():
                    nets[net] = (v["wif_prefix"], v["address_prefix"])
                    self.all.append([name, net])
                self.table[name] = nets
                if cls.ALPHABET and cls.ALPHABET != ref.B58:
                    self.own_alphabet.add(name)
        self.std = [c for c in self.all if c[0] not in self.own_alphabet]
        self.multi = [c for c in self.std if self.table[c[0]][c[1]][1] > 255] or self.std
        self.zero = [c for c in self.std if self.table[c[0]][c[1]][1] == 0] or self.std
        self.nonmain = [c for c in self.std if c[1] != "mainnet"] or self.std
        self.lib = lib
        self.cache = {}

    def cls(self, spec):
        """spec: coin name, or {"net": [wif, addr], ...} for a user defined coin."""
        if isinstance(spec, str):
            return getattr(self.lib.cryptocurrencies, spec)
        key = json.dumps(spec, sort_keys=False)
        if key not in self.cache:
            nets = {n: {"wif_prefix": v[0], "address_prefix": v[1]} for n, v in spec.items()}
            # coins that share a name, and ones derived from a documented coin, are coins of their own
            names = [v[2] for v in spec.values() if len(v) > 2] + [["UserCoin", "UserCoin", "Bitcoin"][sum(v[1] for v in spec.values()) % 3]]
            name = names[0]
            parent = self.base if sum(v[0] + v[1] for v in spec.values()) % 2 else getattr(self.lib.cryptocurrencies, name, self.base)
            self.cache[key] = type(name, (parent,), {"NETWORKS": nets})
        return self.cache[key]

    def prefixes(self, spec, net):
        if isinstance(spec, str):
            return self.table[spec][net]
        return tuple(spec[net][:2])


def addr_prefix():
    return pick((3, st.integers(0, 255)), (2, st.sampled_from([0, 1, 2, 3, 5, 0x1e, 0x6f, 0x80, 0xff])),
                (2, st.integers(256, 0xFFFF)), (1, st.integers(0x10000, 0xFFFFFF)))


def wif_prefix():
    return pick((3, st.integers(1, 255)), (2, st.sampled_from([0, 1, 2, 0x80, 0xef, 0xff, 0xb0, 0x9e])), (1, st.integers(256, 0xFFFF)))


def user_coin():
    return st.lists(st.tuples(st.sampled_from(["mainnet", "testnet", "regtest", "signet", "Main Net", "x", "ünet"]),
                              wif_prefix(), addr_prefix()), min_size=1, max_size=3,
                    unique_by=lambda t: t[0]).map(lambda ts: {t[0]: [t[1], t[2]] for t in ts})


def kin_of(coins, spec, net, which, bit):
    """A user defined coin of the same name that differs from another coin in one version of one network."""
    nets = {n: list(v) for n, v in (coins.table[spec] if isinstance(spec, str) else spec).items()}
    nets[net][which] ^= 1 << bit
    if isinstance(spec, str):
        nets[net].append(spec)
    return nets


@st.composite
def kin_coin(draw, coins, spec):
    """[coin spec, network]"""
    names = sorted(coins.table[spec] if isinstance(spec, str) else spec)
    net = draw(st.sampled_from(names))
    return [kin_of(coins, spec, net, draw(st.sampled_from([0, 1, 1])), draw(st.integers(0, 7))), draw(st.sampled_from([net, net, names[0]]))]


def coin_net(coins, own_alphabet=False, custom=True):
    """[coin spec, network]"""
    pool = coins.all if own_alphabet else coins.std
    parts = [(4, st.sampled_from(pool)), (2, st.sampled_from(coins.multi)), (1, st.sampled_from(coins.nonmain)),
             (2, st.sampled_from([c for c in pool if c[0] == "Bitcoin"] or pool))]
    own = [c for c in pool if c[0] in coins.own_alphabet]
    if own:
        parts.append((1, st.sampled_from(own)))
    if custom:
        parts.append((2, user_coin().flatmap(lambda c: st.sampled_from(sorted(c)).map(lambda n: [c, n]))))
    return pick(*parts)


# ------------------------------------------------------------------ NFC
def nfc_bytes(text):
    return unicodedata.normalize("NFC", text).encode("utf-8")


def same_passphrase(a, b):
    """Whether scrypt itself can tell the two apart: PBKDF2's HMAC key is padded with zero bytes, and
    hashed first when longer than 64 bytes."""
    x, y = nfc_bytes(a), nfc_bytes(b)

    def hmac_key(k):
        return ref.sha256(k) if len(k) > 64 else k

    return hmac_key(x).rstrip(b"\0") == hmac_key(y).rstrip(b"\0")
