"""C22: errors, output and log records do not disclose secrets."""
import logging
import os
import shutil
import sys
import tempfile
import warnings

from checks.common import *  # noqa: F401,F403

RULE = ("A case is an operation with secrets among its arguments (passphrase, WIF, private key or seed in bytes or hexadecimal text) or one that draws its seed, "
        "genuine or with something wrong (passphrase, checksum, network, length, marker, range, type, hexadecimal digits). Whether it succeeds "
        "or is refused, the text of the error and of the errors it was raised from, standard output and error, log records, warnings, files "
        "written and the environment contain no 10 character part of a secret, in whatever case, as text, hexadecimal or Base58 of it or of the factor derived from a passphrase or a seed, and no 4 character part that "
        "follows the secret when it is exchanged for others. Non-trivial: the operation was refused.")
ASSUMPTIONS = ["fewer than 4 characters of a secret in a row, such as the one character a codec error names, disclose nothing",
               "the encrypted keys, intermediate and confirmation codes, addresses, public keys and salts are no secrets"]
PART = 10
SHORT = 4
PUBLIC = " ".join(str(n) + " %x" % n for n in (ref.N, ref.N - 1, ref.P, 2**256, 2**256 - 1)) + " 0123456789 0123456789abcdef " + ref.B58.lower()
PUBLIC += "".join(" " + t.lower() for t in sorted(gens.HARVEST.texts))       # what the code says of itself

OPS = ["encrypt", "decrypt", "decrypt ec", "confirm", "intermediate", "create", "encode_wif", "decode_wif", "private_key_to_wif",
       "wif_to_private_key", "get_wif_type", "get_wif_checksum", "private key", "construct"]
FAULTS = {"encrypt": ["none", "network", "unknown network", "checksum", "cut", "key", "foreign", "marker", "surrogate", "other coin"],
          "decrypt": ["none", "wrong", "network", "unknown network", "checksum", "cut", "foreign", "surrogate", "flag", "swapped"],
          "decrypt ec": ["none", "wrong", "network", "unknown network", "checksum", "cut", "foreign", "surrogate", "bits", "swapped"],
          "confirm": ["none", "wrong", "network", "unknown network", "checksum", "cut", "foreign", "surrogate", "bits", "swapped"],
          "intermediate": ["none", "no salt", "lot", "seq", "one", "salt", "surrogate", "lot text"],
          "create": ["none", "no seed", "seed length", "seed digits", "type", "checksum", "cut", "foreign", "unknown network", "bits"],
          "encode_wif": ["none", "length", "digits"], "private_key_to_wif": ["none", "length", "digits", "type", "unknown network"],
          "private key": ["none", "length", "zero", "high"], "construct": ["none", "unknown network", "no coin"]}
for _o in ("decode_wif", "wif_to_private_key", "get_wif_type", "get_wif_checksum"):
    FAULTS[_o] = ["none", "network", "checksum", "cut", "foreign", "marker", "length", "unknown network"]


def cases(lib):
    text = st.text(alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !-_{}%$\\", min_size=12, max_size=40)
    brief = st.text(alphabet="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", min_size=4, max_size=11)
    return st.sampled_from(OPS).flatmap(lambda o: st.fixed_dictionaries({
        "op": st.just(o), "fault": st.sampled_from(FAULTS[o]), "pass": st.one_of(text, text, brief, st.sampled_from(["pässwörter und mehr", "correct horse battery staple", "ΜΟΛΩΝ ΛΑΒΕ ΜΟΛΩΝ"])),
        "wrong": text, "key": st.one_of(gens.uniform32(), gens.privkeys()),
        "seed": st.one_of(st.binary(min_size=24, max_size=24).map(bytes.hex), gens.seeds()), "salt": st.binary(min_size=8, max_size=8).map(bytes.hex),
        "lot": st.one_of(st.none(), st.tuples(gens.lots(), gens.sequences()).map(list)), "compressed": st.booleans(), "detail": st.booleans(), "hex": st.booleans(),
        "coin": st.sampled_from([["Bitcoin", "mainnet"], ["Bitcoin", "testnet"], ["Litecoin", "mainnet"], ["Zcash", "mainnet"]]),
        "at": st.integers(0, 200), "bit": st.integers(0, 7)}))


class Catch(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.said = []

    def emit(self, record):
        try:
            self.said.append(record.getMessage())
        except Exception:  # noqa: BLE001
            self.said.append(repr((record.msg, record.args)))


class Files:
    """Files opened for writing while active."""
    hooked, active = False, None

    def __enter__(self):
        if not Files.hooked:
            Files.hooked = True
            sys.addaudithook(Files.hook)
        self.paths, self.home, self.dir = [], os.getcwd(), tempfile.mkdtemp(prefix="c22.")
        os.chdir(self.dir)
        Files.active = self
        return self

    @staticmethod
    def hook(event, args):
        if event == "open" and Files.active is not None:
            path, mode, flags = args
            if (isinstance(mode, str) and set(mode) & set("wax+")) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR)):
                Files.active.paths.append(path)

    def __exit__(self, *_):
        Files.active = None
        self.texts = []
        for path in self.paths:
            try:
                if isinstance(path, (str, bytes)) and os.path.isfile(path):
                    with open(path, "rb") as f:
                        self.texts.append(("the file %s" % os.path.basename(os.fsdecode(path)), f.read(1 << 20).decode("utf-8", "replace")))
            except OSError:
                pass
        os.chdir(self.home)
        shutil.rmtree(self.dir, ignore_errors=True)


def written(secrets):
    """(name, text): the ways a secret may be written."""
    for name, s in secrets.items():
        if isinstance(s, bytes):
            forms_ = [s.hex(), ref.b58e(s), repr(s)[2:-1], repr(list(s))[1:-1], str(int.from_bytes(s, "big"))]
        else:
            forms_ = [s, s.encode("utf-8", "surrogatepass").hex(), repr(s)[1:-1], s[::-1]]
        for i, f in enumerate(forms_):
            yield (name, i), f.lower()


def parts(secrets):
    """Texts that give a secret away."""
    res = {}
    for (name, _i), f in written(secrets):
        for i in range(len(f) - PART + 1):
            part = f[i:i + PART]
            if len(set(part)) > 3 and part not in PUBLIC:
                res[part] = name
    return res


def short_parts(secrets, told):
    """{(secret, form, place): text} of the short parts that occur."""
    texts = {t.lower() for _, t in told}
    grams = {t[i:i + SHORT] for t in texts for i in range(len(t) - SHORT + 1)}
    return {(who, i): f[i:i + SHORT] for who, f in written(secrets) for i in range(len(f) - SHORT + 1) if f[i:i + SHORT] in grams}


def otherwise(case, n):
    """The same case with other secrets of the same shape."""
    def text(t):
        res = []
        for c in t:
            for first, size in (("a", 26), ("A", 26), ("0", 10)):
                if 0 <= ord(c) - ord(first) < size:
                    c = chr(ord(first) + (ord(c) - ord(first) + n) % size)
                    break
            res.append(c)
        return "".join(res)

    def mask(h, label):
        m = ref.sha256(b"%s %d" % (label, n))[:len(h) // 2]
        return ref.xor(B(h), m).hex()

    key = mask(case["key"], b"key")
    if not 0 < int(key, 16) < ref.N:
        key = "7f" + key[2:]
    return dict(case, key=key, seed=mask(case["seed"], b"seed"), wrong=text(case["wrong"]), **{"pass": text(case["pass"])})


def spoil(code, case):
    fault, at = case["fault"], case["at"]
    i = at % len(code)
    if fault == "checksum":
        return code[:-1] + ("2" if code[-1] != "2" else "3")
    if fault == "cut":
        return code[:-1 - at % 12]
    if fault == "foreign":
        return code[:i] + "0OIl é+"[at % 7] + code[i + 1:]
    if fault in ("bits", "flag", "marker", "length"):
        raw = bytearray(ref.b58cd(code))
        if fault == "flag":
            raw[2] ^= 1 << case["bit"]
        elif fault == "marker":
            raw[-1] ^= 1 << case["bit"]
        elif fault == "length":
            raw = raw[:-1 - at % 4] if at & 1 else raw + bytes(1 + at % 3)
        else:
            raw[at % len(raw)] ^= 1 << case["bit"]
        return ref.b58ce(bytes(raw))
    return code


def observe(case, ctx):
    """(outcome, secrets, [(where, text)]) of the operation."""
    lib, op, fault, p, comp = ctx.lib, case["op"], case["fault"], case["pass"], case["compressed"]
    spec, net = case["coin"]
    wp, ap = coins(lib).prefixes(spec, net)
    key, seed, salt = B(case["key"]), B(case["seed"]), B(case["salt"])
    lot, seq = case["lot"] or (None, None)
    secrets = {"passphrase": p}
    use = {"network": "mainnet" if net == "testnet" else "testnet", "unknown network": "nowhere"}.get(fault, net)
    if use not in coins(lib).table[spec] and use != "nowhere":
        use = net
    if fault == "surrogate":
        p = p[:5] + "\ud800" + p[5:]
        secrets["passphrase"] = p
    if fault == "key":
        key = (b"\xff" * 31 + bytes([0xFE - case["bit"]])) if case["hex"] else key
    wif = ref.wif(key, wp, comp)
    inter = ref.intermediate(case["pass"], salt, lot, seq)
    cls = coins(lib).cls(spec)
    kw = {"network": use} if use != net else {}

    def build():
        """The call to make, as (function, arguments)."""
        one = lambda: lib.BIP38(cls, net)  # noqa: E731
        if op == "encrypt":
            secrets.update({"private key": key, "WIF": wif})
            text = spoil(wif, case)
            secrets["WIF given"] = text
            if fault == "other coin":
                return lambda: lib.BIP38(lib.cryptocurrencies.Dogecoin, "mainnet").encrypt(text, p)
            return lambda: one().encrypt(text, p, **kw)
        if op == "decrypt":
            secrets.update({"private key": key, "WIF": wif})
            code = spoil(ref.encrypt(key, comp, ap, case["pass"]), case)
            if fault == "wrong":
                secrets["wrong passphrase"] = q = case["wrong"]
            else:
                q = p
            if fault == "swapped":
                return lambda: one().decrypt(q, code)
            return lambda: one().decrypt(code, q, detail=case["detail"], **kw)
        if op in ("decrypt ec", "confirm"):
            made = ref.create(inter, seed, comp, ap)
            code = made["encrypted_wif" if op != "confirm" else "confirmation_code"]
            secrets.update({"seed": seed, "private key": ref.decrypt(made["encrypted_wif"], case["pass"], wp, ap)["key"]})
            secrets["WIF"] = ref.wif(secrets["private key"], wp, comp)
            code = spoil(code, case)
            q = p
            if fault == "wrong":
                secrets["wrong passphrase"] = q = case["wrong"]
            if op == "confirm":
                if fault == "swapped":
                    return lambda: one().confirm_code(code, q)
                return lambda: one().confirm_code(q, code, detail=case["detail"], **kw)
            if fault == "swapped":
                return lambda: one().decrypt(q, code)
            return lambda: one().decrypt(code, q, detail=case["detail"], **kw)
        if op == "intermediate":
            args = {"lot": lot, "sequence": seq, "owner_salt": salt}
            if fault == "no salt":
                del args["owner_salt"]
            elif fault == "lot":
                args.update(lot=99999, sequence=1)
            elif fault == "seq":
                args.update(lot=123456, sequence=4096)
            elif fault == "one":
                args.update(lot=123456, sequence=None)
            elif fault == "salt":
                args["owner_salt"] = salt[:7]
            elif fault == "lot text":
                args.update(lot="many", sequence="few")
            return lambda: lib.BIP38.intermediate_code(p, **args)
        if op == "create":
            secrets["seed"] = seed
            s = seed.hex() if case["hex"] else seed
            if fault == "seed length":
                s = s[:-2]
            elif fault == "seed digits":
                s = seed.hex()[:-1] + "g"
            elif fault == "no seed":
                s = None
            code = spoil(inter, case)
            return lambda: one().create_new_encrypted_wif(code, "compressed" if fault == "type" else wif_type(comp), s, **kw)
        if op in ("encode_wif", "private_key_to_wif", "private key"):
            k = key
            if fault == "length":
                k = key[:-1] if case["bit"] & 1 else key + b"\x01"
            elif fault == "high":
                k = b"\xff" * 16 + key[16:]
            elif fault == "zero":
                k = bytes(32)
            if k != bytes(32):
                secrets["private key"] = k[16:] if fault == "high" else k
            if op == "private key":
                return lambda: lib.PrivateKey.from_bytes(k).public_key().raw_compressed()
            k = k.hex() if case["hex"] or fault == "digits" else k
            if fault == "digits":
                k = k[:-1] + "x"
            if op == "encode_wif":
                return lambda: lib.wif.encode_wif(k, wp)
            return lambda: lib.wif.private_key_to_wif(k, "compressed" if fault == "type" else wif_type(comp), cls, use)
        if op == "construct":
            if fault == "no coin":
                return lambda: lib.BIP38(dict, net)
            return lambda: lib.BIP38(cls, use)
        secrets.update({"private key": key, "WIF": wif})
        text = spoil(wif, case)
        secrets["WIF given"] = text
        if op == "decode_wif":
            return lambda: lib.wif.decode_wif(text, wp ^ 1 if fault == "network" else wp)
        return lambda: getattr(lib.wif, op)(text, cls, use)

    go = build()
    catch, root = Catch(), logging.getLogger()
    level, raised = root.level, logging.raiseExceptions
    saved = os.dup(1), os.dup(2)
    with tempfile.TemporaryFile() as f, warnings.catch_warnings(record=True) as warned:
        warnings.simplefilter("always")
        sys.stdout.flush()
        sys.stderr.flush()
        os.dup2(f.fileno(), 1)
        os.dup2(f.fileno(), 2)
        root.addHandler(catch)
        root.setLevel(1)
        try:
            before = dict(os.environ)
            with Files() as files:
                out = call(go)
            sys.stdout.flush()
            sys.stderr.flush()
        finally:
            root.removeHandler(catch)
            root.setLevel(level)
            logging.raiseExceptions = raised
            for i, fd in enumerate(saved, 1):
                os.dup2(fd, i)
                os.close(fd)
        f.seek(0)
        told = [("standard output or error", f.read().decode("utf-8", "replace"))]
    told += [("a log record", t) for t in catch.said] + [("a warning", str(w.message)) for w in warned]
    told += [t for t in files.texts if not t[0].endswith(".pyc")]
    told += [("the environment", v) for k, v in os.environ.items() if before.get(k) != v]
    e, seen = (None if out.ok else out.exc), set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        told.append(("the message of %s" % type(e).__name__, str(e)))
        told.append(("the notes of %s" % type(e).__name__, " ".join(getattr(e, "__notes__", ()))))
        if isinstance(e, lib.Error):
            told.append(("the representation of %s" % type(e).__name__, repr(e)))
        e = e.__cause__ or (None if e.__suppress_context__ else e.__context__)
    derived(op, fault, out, secrets, p, salt, lot, seq)
    return out, secrets, told


def derived(op, fault, out, secrets, p, salt, lot, seq):
    """Add what the operation drew, and what it computed that opens the key."""
    if fault == "no seed" and out.ok:
        secrets["seed"] = bytes.fromhex(out.value["seed"])
    if "seed" in secrets:
        secrets["factor of the seed"] = ref.dsha(secrets["seed"])
    if fault == "no salt" and out.ok:
        entropy = ref.b58cd(out.value)[8:16]
        salt = entropy[:4] if lot is not None else entropy
    if op in ("decrypt ec", "confirm", "intermediate") and fault not in ("surrogate", "swapped"):
        secrets["factor of the passphrase"] = ref.owner(p, salt, lot, seq)[0].to_bytes(32, "big")


def check(case, ctx):
    op, fault = case["op"], case["fault"]
    out, secrets, told = observe(case, ctx)
    bad = parts(secrets)
    for where, text in told:
        low = text.lower()
        for i in range(len(low) - PART + 1):
            name = bad.get(low[i:i + PART])
            if name:
                ctx.fail("%s (%s): %s contains a part of the %s: %s" % (op, fault, where, name, short(text, 200)))
    # a short part may be there by chance, but not the same part of three different secrets
    found = short_parts(secrets, told)
    for n in (3, 7):
        if found:
            ctx.label("short parts looked at again")
            _, other, told2 = observe(otherwise(case, n), ctx)
            again = short_parts(other, told2)
            found = {k: v for k, v in found.items() if again.get(k, v) != v}
    if found:
        (who, at), text = sorted(found.items())[0]
        ctx.fail("%s (%s): what is told contains characters %d to %d of the %s: %s" % (op, fault, at, at + SHORT, who[0], short(repr(told), 300)))
    ctx.label("%s, %s: %s" % (op, fault, "done" if out.ok else "refused"))
    ctx.nontrivial(not out.ok)


UNITS = [
    Unit("secrets", "stub", check, gen=cases, quick=4000, thorough=120000, shards=4, tshards=8, fallback_quick=30),
    # with the environment variables that the code mentions
    Unit("debugging", "stub", check, gen=cases, quick=1500 if gens.ENV_NAMES else 60, thorough=30000 if gens.ENV_NAMES else 200, shards=2, tshards=8, fallback_quick=8,
         environ={n: "1" for n in gens.ENV_NAMES}),
]
