"""C19: arbitrary text is refused cleanly."""
import os
import shutil
import subprocess
import tempfile

from checks.common import *  # noqa: F401,F403

RULE = ("text: any Unicode text (with lone surrogates, control characters, up to 20000 characters), texts of the alphabet, damaged "
        "genuine codes, and payloads of any length and content under a correct checksum, given to every operation that takes a code, with "
        "any passphrase. fuzz: the same operations driven by Atheris (coverage-guided) from a corpus of genuine codes, with raw texts and "
        "with payloads whose checksum is made right. An operation must return, or raise one of the library's errors or a ValueError. "
        "Non-trivial: the text got past the alphabet (it decodes as base58) or is not ASCII.")
ASSUMPTIONS = ["the stand-in KDF raises what scrypt raises for a text that has no UTF-8 form (UnicodeEncodeError, a ValueError)",
               "an operation that uses 100 s of processor time does not terminate"]

OPS = ["decrypt", "decrypt detail", "confirm", "confirm detail", "create", "create compressed", "encrypt", "decode_wif", "get_wif_type",
       "wif_to_private_key", "get_wif_checksum", "address", "passphrase of intermediate_code", "passphrase of encrypt"]
NETS = [["Bitcoin", "mainnet"], ["Bitcoin", "testnet"], ["Zcash", "mainnet"], ["Litecoin", "mainnet"], ["Ripple", "mainnet"]]


def perform(lib, case):
    name, net = NETS[case["net"] % len(NETS)]
    cls = getattr(lib.cryptocurrencies, name)
    one = lib.BIP38(cls, net)
    op, text, p = case["op"], case["text"], case["pass"]
    w = lib.wif
    if op.startswith("decrypt"):
        return one.decrypt(text, p, detail=op.endswith("detail"))
    if op.startswith("confirm"):
        return one.confirm_code(p, text, detail=op.endswith("detail"))
    if op.startswith("create"):
        return one.create_new_encrypted_wif(text, "wif-compressed" if op.endswith("compressed") else "wif", "11" * 24)
    if op == "encrypt":
        return one.encrypt(text, p)
    if op == "decode_wif":
        return w.decode_wif(text, cls.NETWORKS[net]["wif_prefix"])
    if op == "address":
        return lib.P2PKH.decode(text, address_prefix=cls.NETWORKS[net]["address_prefix"], alphabet=cls.ALPHABET or ref.B58)
    if op == "passphrase of intermediate_code":
        return one.intermediate_code(text, owner_salt=b"12345678")
    if op == "passphrase of encrypt":
        return one.encrypt(ref.wif(b"\x22" * 32, cls.NETWORKS[net]["wif_prefix"], True), text)
    return getattr(w, op)(text, cls, net)


def outcome(lib, case):
    out = call(perform, lib, case)
    if out.ok:
        return "ok", None
    if isinstance(out.exc, lib.Error):
        # the error must be presentable
        shown = call(str, out.exc)
        if not shown.ok:
            return "unclean", "%s: the text of the error %r" % (case["op"], shown)
        return "library error", None
    if isinstance(out.exc, ValueError):
        return "value error", None
    return "unclean", "%s of %r with passphrase %r %r" % (case["op"], short(case["text"], 120), short(case["pass"], 60), out)


def check(case, ctx):
    if "fuzz" in case:
        return check_fuzz(case, ctx)
    verdict, say = outcome(ctx.lib, case)
    if verdict == "unclean":
        ctx.fail(say)
    ctx.label(case["op"] + ": " + verdict)
    raw = ref.b58d(case["text"])
    if raw is not None:
        ctx.label("base58" if ref.b58cd(case["text"]) is None else "base58 with a right checksum")
    else:
        ctx.label("no base58 text")
    if len(case["text"]) > 1000:
        ctx.label("over 1000 characters")
    ctx.nontrivial(raw is not None or not case["text"].isascii())


def wild_text(n=60):
    return st.one_of(st.text(max_size=n), st.text(st.characters(), max_size=n),
                     st.text(st.characters(categories=["Cs", "Cc", "Cf", "Zs", "Nd"]), max_size=n),
                     st.binary(max_size=n).map(lambda b: b.decode("latin-1")))


def long_wild():
    return st.tuples(st.text(min_size=1, max_size=5), st.sampled_from([200, 1000, 5000, 20000])).map(lambda t: (t[0] * t[1])[:t[1]])


HEADS = {
    "decrypt": [b"\x01\x42\xc0", b"\x01\x42\xe0", b"\x01\x43\x00", b"\x01\x43\x04", b"\x01\x43\x20", b"\x01\x43\x24", b"\x01\x42", b"\x01\x43", b"\x01\x44"],
    "confirm": [ref.CFRM + b"\x00", ref.CFRM + b"\x24", ref.CFRM + b"\x04", ref.CFRM + b"\x20", ref.CFRM, ref.CFRM[:-1]],
    "create": [m + e + h for m in (ref.MAGIC_LOT, ref.MAGIC_NOLOT) for e in (b"saltsalt", bytes(8))
               for h in (b"\x02", b"\x03", b"\x04", b"\x00", b"\x05", b"\x06", b"\x07", b"\x02" + bytes(31))] + [ref.MAGIC_LOT[:-1]],
    "wif": [b"\x80", b"\xef", b"\xb0", b"\x80" + bytes(32), b"\x80" + bytes(31), b"\x80" + b"\xff" * 32, b"\x80" + ref.N.to_bytes(32, "big"), b"\xef" + b"\xff" * 31],
    "address": [b"\x00", b"\x6f", b"\x1c\xb8", b"\x1c", b"\x30"]}
SIZES = {"decrypt": [39, 39, 39, 38, 40, 43], "confirm": [51, 51, 51, 50, 52], "create": [49, 49, 49, 48, 50, 81], "wif": [33, 34, 34, 32, 35], "address": [21, 22, 20, 23]}


def family(op):
    return "decrypt" if op.startswith("decrypt") else "confirm" if op.startswith("confirm") else "create" if op.startswith("create") else \
        "address" if op == "address" else "wif"


@st.composite
def payloads(draw, op):
    """Payload under a right checksum: heads that select a branch, any body."""
    fam = draw(st.sampled_from([family(op)] * 4 + sorted(HEADS)))
    head = draw(st.sampled_from(HEADS[fam] + [b""]))
    total = draw(st.sampled_from(SIZES[fam] * 2 + [0, 1, 2, 3, 4, 5, 8, 16, 20, 32, 64, 200]))
    n = max(0, total - len(head))
    body = draw(gens.pick((4, st.binary(min_size=n, max_size=n)), (1, st.sampled_from([b"\0", b"\xff", b"\x01"]).map(lambda b: b * n))))
    return (head + body).hex()


@st.composite
def genuine(draw, lib, op):
    spec, net = draw(st.sampled_from(NETS[:4]))
    wp, ap = coins(lib).prefixes(spec, net)
    key, comp = B(draw(gens.privkeys())), draw(st.booleans())
    kind = draw(st.sampled_from([family(op)] * 4 + sorted(HEADS)))
    if kind == "wif":
        return ref.wif(key, wp, comp)
    if kind == "address":
        return ref.address(ref.mul_g(int.from_bytes(key, "big")), ap, comp)
    if kind == "decrypt" and draw(st.booleans()):
        return ref.encrypt(key, comp, ap, "p")
    inter = ref.intermediate("p", B(draw(gens.salts8())), *draw(st.sampled_from([(None, None), (123456, 7)])))
    if kind == "create":
        return inter
    return ref.create(inter, B(draw(gens.seeds())), comp, ap)["encrypted_wif" if kind == "decrypt" else "confirmation_code"]


@st.composite
def edited(draw, lib, op):
    t = draw(genuine(lib, op))
    for _ in range(draw(st.integers(1, 3))):
        i = draw(st.integers(0, len(t)))
        j = draw(st.integers(i, min(len(t), i + 3)))
        t = t[:i] + draw(st.one_of(st.text(st.characters(), max_size=2), st.text(ref.B58, max_size=2))) + t[j:]
    return t


@st.composite
def text_cases(draw, lib):
    op = draw(st.sampled_from(OPS))
    code = draw(gens.pick((2, wild_text()), (1, st.text(ref.B58, max_size=120)), (1, long_wild()), (2, edited(lib, op)), (1, genuine(lib, op)),
                          (5, payloads(op).map(lambda h: ref.b58ce(B(h)))), (1, payloads(op).map(lambda h: ref.b58e(B(h)))),
                          (1, st.sampled_from(["", " ", "1", "11", "1" * 58, "z" * 58, "6P", "cfrm", "passphrase", "\0", "0", "O", "l", "é" * 58]))))
    p = draw(gens.pick((3, st.just("p")), (1, gens.passphrases()), (2, wild_text(30)),
                       (1, st.sampled_from(["0" * 64, "f" * 64, "%064x" % ref.N, "00" * 31 + "01"]).map(lambda h: env.PW_MARK_TEXT + h))))
    return {"op": op, "net": draw(st.integers(0, 4)), "text": code, "pass": p}


# ------------------------------------------------------------------ coverage-guided
TARGETS = ["decrypt", "confirm", "create", "wif and address"]


def from_bytes(data, target):
    """The case a fuzzer input stands for."""
    mode, rest = (data[0], data[1:]) if data else (0, b"")
    ops = {"decrypt": OPS[0:2], "confirm": OPS[2:4], "create": OPS[4:6], "wif and address": OPS[6:]}[target]
    op, net, how = ops[mode % len(ops)], mode // 16 % 5, mode // 80
    if how == 0:
        text = rest.decode("utf-8", "surrogateescape")
    else:
        text = ref.b58ce(rest) if how == 1 or how == 3 else "".join(ref.B58[b % 58] for b in rest)
    return {"op": op, "net": net, "text": text, "pass": "p" if how != 3 or not rest else rest[-3:].decode("utf-8", "surrogateescape")}


def corpus(folder, target):
    inter = [ref.intermediate("p", b"saltsalt"), ref.intermediate("p", b"salt", 123456, 7)]
    made = [ref.create(c, b"s" * 24, comp, 0) for c in inter for comp in (False, True)]
    codes = {
        "decrypt": [ref.encrypt(b"\x11" * 32, c, 0, "p") for c in (False, True)] + [m["encrypted_wif"] for m in made],
        "confirm": [m["confirmation_code"] for m in made], "create": inter,
        "wif and address": [ref.wif(b"\x11" * 32, v, c) for v in (0x80, 0xef) for c in (False, True)] + [
            ref.address(ref.mul_g(5), v, True) for v in (0, 0x6f, 0x1cb8)],
    }[target]
    n = 0
    for code in codes:
        for mode in range(0, 16 if target == "wif and address" else 2):
            for tail in (bytes([mode]) + code.encode(), bytes([80 + mode]) + ref.b58cd(code)):
                with open(os.path.join(folder, "seed%d" % n), "wb") as f:
                    f.write(tail)
                n += 1


def fuzz_cases(ctx):
    rounds = 1 if ctx.tier == "quick" else 8
    for r in range(rounds):
        for i, t in enumerate(TARGETS):
            yield {"fuzz": t, "seed": ctx.seed * 1000 + r * 10 + i, "runs": 6000 if ctx.tier == "quick" else 150000}


def check_fuzz(case, ctx):
    py = "/opt/veriftools/pyvenv/bin/python"
    with tempfile.TemporaryDirectory(prefix="bip38fuzz.") as tmp:
        out, folder = os.path.join(tmp, "out"), os.path.join(tmp, "corpus")
        os.mkdir(folder)
        corpus(folder, case["fuzz"])
        if not os.path.exists(py) or subprocess.run([py, "-c", "import atheris"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            ctx.notes["atheris"] = "not installed: not run"
            return
        runs = case["runs"] if ctx.lib.calibrated else 30
        run = subprocess.run([py, os.path.join(os.path.dirname(gens.HERE), "vlib", "fuzz.py"), out, str(case["seed"]), str(runs), folder, case["fuzz"]],
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3000, cwd=tmp)
        try:
            with open(out) as f:
                got = gens.json.load(f)
        except OSError:
            got = {}
        if "message" in got:
            raise Violation(got["message"], shrink(ctx.lib, got["case"]))
        tail = run.stdout.decode("utf-8", "replace")[-1500:]
        if "ERROR: libFuzzer: timeout" in tail:
            raise Violation("%s: no result within 100 s" % case["fuzz"])
        if run.returncode or not got:
            raise RuntimeError("the fuzzer ended with code %d\n%s" % (run.returncode, tail))
        for k, v in got["count"].items():
            key = "fuzz %s: %s" % (case["fuzz"], k)
            ctx.notes[key] = ctx.notes.get(key, 0) + v
        ctx.nontrivial(True)
        ctx.label("fuzz " + case["fuzz"])


def shrink(lib, case):
    """Fewer characters of the text that still fail."""
    best, size = case, len(case["text"])
    step = max(1, size // 2)
    while step:
        i = 0
        while i < len(best["text"]):
            t = dict(best, text=best["text"][:i] + best["text"][i + step:])
            if outcome(lib, t)[0] == "unclean":
                best = t
            else:
                i += step
        step //= 2
    return best


UNITS = [
    Unit("fuzz", "stub", check, cases=fuzz_cases, shards=4, tshards=8),
    Unit("text", "stub", check, gen=text_cases, quick=20000, thorough=600000, shards=4, tshards=8),
    Unit("scrypt", "real", check, gen=text_cases, quick=60, thorough=3000, shards=1, tshards=8),
]
