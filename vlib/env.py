"""Imports the code under test from /repo, with a controllable key derivation function.

`load(mode)` must run once per process, before anything imports bip38:

mode "real"  the real scrypt, memoised (scrypt is a pure function; 0.35 s a call)
mode "stub"  scrypt replaced by a fast keyed hash of all its arguments.  BIP38's structure does
             not depend on which KDF is used, so every property is stated for any KDF, and the
             stand-in makes thousands of whole operations affordable.  It keeps scrypt's prefix
             property (a shorter output is a prefix of a longer one) and is a pure function of
             its arguments.  It can also be steered, through its arguments only, to outputs no
             search would find with scrypt (see `steer_*`).
mode "none"  nothing replaced (the code exercised uses no KDF)

If the code under test reaches its KDF by a way the stand-in does not cover, `calibrate()` says
so, and the caller falls back to the real one.
"""
import functools
import hashlib
import importlib
import os
import sys

REPO = os.environ.get("BIP38_VERIF_REPO", "/repo")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"
sys.dont_write_bytecode = True
for _p in (VENV_SITE, VT_SITE):
    if _p not in sys.path:
        sys.path.append(_p)

from vlib import ref  # noqa: E402  (before any attribute of hashlib is replaced)

PW_MARK = b"\xe2\x90\x9fK"          # U+241F then "K": the hex digits after it overlay the output
PW_MARK_TEXT = "\u241fK"
SALT_MARK = bytes.fromhex("c77c1e")  # owner entropy starting so: next byte selects a rule


def steer_password(passphrase, first_bytes):
    """A passphrase for which the stand-in KDF's output starts with these bytes."""
    return passphrase + PW_MARK_TEXT + first_bytes.hex()


def steer_salt(rule):
    """First 4 bytes of an owner salt selecting a rule for the second KDF (N = 1024):
    bit 0 zeroes output bytes 0-15, bit 1 bytes 16-31, bits 2/3 clear/set the last bit."""
    return SALT_MARK + bytes([rule])


reuse_instances = False              # whether checks keep BIP38 instances from case to case
CALLS = [0]
CURRENT = [None]
CALIBRATE = True


def stub_kdf(password, salt, n, r, p, dklen):
    CALLS[0] += 1
    out = b""
    i = 0
    head = b"%d,%d,%d,%d,%d;" % (n, r, p, len(password), len(salt)) + password + salt
    size = max(dklen, 64)
    while len(out) < size:
        out += hashlib.blake2b(head + b"%d" % i).digest()
        i += 1
    out = bytearray(out[:size])
    if n == 1024 and len(salt) == 12 and salt[4:7] == SALT_MARK:
        rule = salt[7]
        if rule & 1:
            out[0:16] = bytes(16)
        if rule & 2:
            out[16:32] = bytes(16)
        if rule & 4:
            out[63] &= 0xFE
        if rule & 8:
            out[63] |= 1
    mark = password.rfind(PW_MARK)
    if mark >= 0:
        try:
            over = bytes.fromhex(password[mark + len(PW_MARK):].decode("ascii"))
        except ValueError:
            over = b""
        out[:len(over)] = over
    return bytes(out[:dklen])


_real_hashlib_scrypt = hashlib.scrypt


@functools.lru_cache(maxsize=4096)
def real_kdf(password, salt, n, r, p, dklen):
    CALLS[0] += 1
    return _real_hashlib_scrypt(password, salt=salt, n=n, r=r, p=p, maxmem=256 << 20, dklen=dklen)


class Lib:
    """What the harness uses of the code under test, by public name."""


def _as_bytes(v):
    return v.encode("utf-8") if isinstance(v, str) else bytes(v)


def replace_kdf(mode):
    """Puts the stand-in, or the memoised real KDF, in the place of scrypt (once)."""
    if CURRENT[0] is not None:
        return
    if mode in ("stub", "real"):
        import scrypt
        CURRENT[0] = stub_kdf if mode == "stub" else real_kdf
        genuine = scrypt.hash

        def dispatch(password, salt, N=1 << 14, r=8, p=1, buflen=64):
            if r * p >= (1 << 30) or N <= 1 or (N & (N - 1)) != 0 or p < 1 or r < 1:
                return genuine(password, salt, N, r, p, buflen)
            return CURRENT[0](_as_bytes(password), _as_bytes(salt), N, r, p, buflen)

        def dispatch_hl(password, *, salt, n, r, p, maxmem=0, dklen=64):
            return CURRENT[0](_as_bytes(password), _as_bytes(salt), n, r, p, dklen)

        scrypt.hash = dispatch
        hashlib.scrypt = dispatch_hl
        inner = sys.modules.get("scrypt.scrypt")
        if inner is not None and hasattr(inner, "hash"):
            inner.hash = dispatch
        ref.KDF.fn = staticmethod(lambda *a: CURRENT[0](*a))


def load(mode, no_native_rmd=False):
    if no_native_rmd:
        _hide_native_rmd()
    replace_kdf(mode)
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    lib = Lib()
    lib.mode = mode
    top = importlib.import_module("bip38")
    where = os.path.realpath(top.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("bip38 was imported from %s, not from %s" % (where, REPO))
    # bip38 rebinds __name__ in its package namespace; submodules are imported by full name
    for name in ("bip38", "wif", "p2pkh_address", "crypto", "utils", "cryptocurrencies", "exceptions",
                 "secp256k1", "libs.base58", "libs.ripemd160"):
        setattr(lib, name.split(".")[-1] if name != "bip38" else "core", importlib.import_module("bip38." + name))
    lib.top = top
    lib.BIP38 = top.BIP38
    ex = lib.exceptions
    lib.Error = ex.Error
    lib.PassphraseError = ex.PassphraseError
    lib.NetworkError = ex.NetworkError
    lib.CryptocurrencyError = ex.CryptocurrencyError
    lib.Secp256k1Error = ex.Secp256k1Error
    lib.P2PKH = lib.p2pkh_address.P2PKHAddress
    lib.Point = lib.secp256k1.Point
    lib.PublicKey = lib.secp256k1.PublicKey
    lib.PrivateKey = lib.secp256k1.PrivateKey
    lib.calibrated = mode != "stub" or not CALIBRATE or _calibrate(lib)
    return lib


def _calibrate(lib):
    """Does the code under test reach the stand-in KDF?  (Only whether it is called is judged.)
    Asked in a child process, so that no check starts with a history."""
    pid = os.fork()
    if not pid:
        code = 2
        try:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            code = 0 if _reaches(lib) else 1
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1] == 0


def _reaches(lib):
    pt = ref.mul_g(7)
    flag, entropy = b"\x00", b"\x07" * 8
    inter = ref.b58ce(ref.MAGIC_NOLOT + entropy + ref.ser(pt))
    enc = ref.b58ce(b"\x01\x42\xc0" + bytes(range(36)))
    enc2 = ref.b58ce(b"\x01\x43\x00" + bytes(range(36)))
    conf = ref.b58ce(ref.CFRM + flag + b"abcd" + entropy + b"\x02" + bytes(range(32)))
    new = lib.BIP38
    steps = [
        (1, lambda: new(lib.cryptocurrencies.Bitcoin).encrypt(ref.wif(b"\x11" * 32, 0x80, True), "calibrate 1")),
        (1, lambda: new.intermediate_code("calibrate 2", owner_salt=b"\x05" * 8)),
        (1, lambda: new(lib.cryptocurrencies.Bitcoin).create_new_encrypted_wif(inter, seed=b"\x05" * 24)),
        (1, lambda: new(lib.cryptocurrencies.Bitcoin).decrypt(enc, "calibrate 3")),
        (2, lambda: new(lib.cryptocurrencies.Bitcoin).decrypt(enc2, "calibrate 4")),
        (2, lambda: new(lib.cryptocurrencies.Bitcoin).confirm_code("calibrate 5", conf)),
    ]
    for least, step in steps:
        before = CALLS[0]
        try:
            step()
            done = True
        except lib.PassphraseError:
            done = True
        except Exception:  # noqa: BLE001
            done = False       # refused before any KDF: says nothing
        if done and CALLS[0] < before + least:
            return False
    return True


def _hide_native_rmd():
    """A platform whose OpenSSL has no RIPEMD-160."""
    genuine = hashlib.new

    def new(name, *a, **k):
        if isinstance(name, str) and name.lower() in ("ripemd160", "rmd160", "ripemd"):
            raise ValueError("unsupported hash type " + name)
        return genuine(name, *a, **k)

    hashlib.new = new
    hashlib.algorithms_available = {a for a in hashlib.algorithms_available if "ripemd" not in a and a != "rmd160"}


def use_real():
    """Falls back to the real KDF when the stand-in is not reached."""
    CURRENT[0] = real_kdf
