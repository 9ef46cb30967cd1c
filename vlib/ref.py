"""Independent reference implementation of BIP38 and everything below it.

Written from the published specifications (BIP-0038, SEC 2, FIPS-197, RIPEMD-160,
Base58Check, WIF), using nothing of /repo and nothing of the ecdsa / pyaes / scrypt
packages the code under test uses.  Only hashlib's SHA-256 (and its scrypt, through
`KDF`) come from elsewhere.  `selftest()` checks it against published vectors.
"""
import hashlib
import struct
import unicodedata

# ----------------------------------------------------------------- secp256k1
P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
GX = 0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798
GY = 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8
G = (GX, GY)


def on_curve(x, y):
    return 0 <= x < P and 0 <= y < P and (y * y - x * x * x - 7) % P == 0


def _jdbl(p):
    x, y, z = p
    if not y or not z:
        return (0, 1, 0)
    a = x * x % P
    b = y * y % P
    c = b * b % P
    d = 2 * ((x + b) * (x + b) - a - c) % P
    e = 3 * a % P
    x3 = (e * e - 2 * d) % P
    return x3, (e * (d - x3) - 8 * c) % P, 2 * y * z % P


def _jadd_affine(p, q):
    """Jacobian p + affine q."""
    x1, y1, z1 = p
    if not z1:
        return (q[0], q[1], 1)
    x2, y2 = q
    zz = z1 * z1 % P
    u2 = x2 * zz % P
    s2 = y2 * zz * z1 % P
    if u2 == x1:
        if s2 == y1:
            return _jdbl(p)
        return (0, 1, 0)
    h = (u2 - x1) % P
    r = (s2 - y1) % P
    hh = h * h % P
    hhh = h * hh % P
    v = x1 * hh % P
    x3 = (r * r - hhh - 2 * v) % P
    return x3, (r * (v - x3) - y1 * hhh) % P, z1 * h % P


def _affine(p):
    x, y, z = p
    if not z:
        return None
    zi = pow(z, -1, P)
    zi2 = zi * zi % P
    return x * zi2 % P, y * zi2 * zi % P


def add(p, q):
    """Affine addition; None is the point at infinity."""
    if p is None:
        return q
    if q is None:
        return p
    return _affine(_jadd_affine((p[0], p[1], 1), q))


def neg(p):
    return None if p is None else (p[0], (-p[1]) % P)


def mul(p, k):
    if p is None:
        return None
    k %= N
    if not k:
        return None
    acc = (0, 1, 0)
    for bit in bin(k)[2:]:
        acc = _jdbl(acc)
        if bit == "1":
            acc = _jadd_affine(acc, p)
    return _affine(acc)


_GTAB = []


def _gtab():
    base = G
    for _ in range(64):
        row = [None]
        cur = None
        for _ in range(15):
            cur = add(cur, base)
            row.append(cur)
        _GTAB.append(row)
        base = add(cur, base)


def mul_g(k):
    k %= N
    if not k:
        return None
    if not _GTAB:
        _gtab()
    acc = (0, 1, 0)
    i = 0
    while k:
        d = k & 15
        if d:
            acc = _jadd_affine(acc, _GTAB[i][d])
        k >>= 4
        i += 1
    return _affine(acc)


def ser(p, compressed=True):
    if compressed:
        return bytes([2 + (p[1] & 1)]) + p[0].to_bytes(32, "big")
    return b"\x04" + p[0].to_bytes(32, "big") + p[1].to_bytes(32, "big")


def lift_x(x, odd):
    if not 0 <= x < P:
        return None
    a = (x * x * x + 7) % P
    y = pow(a, (P + 1) // 4, P)
    if y * y % P != a:
        return None
    if (y & 1) != odd:
        y = P - y
    return x, y


def parse_pub(b):
    """Compressed or uncompressed SEC1; None if not a valid encoding."""
    if len(b) == 33 and b[0] in (2, 3):
        return lift_x(int.from_bytes(b[1:], "big"), b[0] & 1)
    if len(b) == 65 and b[0] == 4:
        x, y = int.from_bytes(b[1:33], "big"), int.from_bytes(b[33:], "big")
        return (x, y) if on_curve(x, y) else None
    return None


# ----------------------------------------------------------------- hashes
def sha256(b):
    return hashlib.sha256(b).digest()


def dsha(b):
    return sha256(sha256(b))


def _rmd_tables():
    rho = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
    pi = [(9 * i + 5) % 16 for i in range(16)]
    left = [list(range(16))]
    right = [pi]
    for _ in range(4):
        left.append([rho[i] for i in left[-1]])
        right.append([rho[i] for i in right[-1]])
    shifts = [
        [11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8],
        [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7],
        [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
        [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6],
        [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5],
    ]
    return left, right, shifts


_RL, _RR, _RS = _rmd_tables()
_RK = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E]
_RKP = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0]


def ripemd160(msg):
    m32 = 0xFFFFFFFF

    def f(j, x, y, z):
        if j == 0:
            return x ^ y ^ z
        if j == 1:
            return (x & y) | (~x & m32 & z)
        if j == 2:
            return (x | (~y & m32)) ^ z
        if j == 3:
            return (x & z) | (y & ~z & m32)
        return x ^ (y | (~z & m32))

    def rot(x, n):
        x &= m32
        return ((x << n) | (x >> (32 - n))) & m32

    data = bytearray(msg) + b"\x80"
    while len(data) % 64 != 56:
        data.append(0)
    data += struct.pack("<Q", len(msg) * 8)
    h = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
    for off in range(0, len(data), 64):
        x = struct.unpack("<16I", bytes(data[off:off + 64]))
        a, b, c, d, e = h
        a2, b2, c2, d2, e2 = h
        for j in range(5):
            for i in range(16):
                w = _RL[j][i]
                t = (rot(a + f(j, b, c, d) + x[w] + _RK[j], _RS[j][w]) + e) & m32
                a, e, d, c, b = e, d, rot(c, 10), b, t
                w = _RR[j][i]
                t = (rot(a2 + f(4 - j, b2, c2, d2) + x[w] + _RKP[j], _RS[j][w]) + e2) & m32
                a2, e2, d2, c2, b2 = e2, d2, rot(c2, 10), b2, t
        h = [
            (h[1] + c + d2) & m32, (h[2] + d + e2) & m32, (h[3] + e + a2) & m32,
            (h[4] + a + b2) & m32, (h[0] + b + c2) & m32,
        ]
    return struct.pack("<5I", *h)


_new, _scrypt = hashlib.new, hashlib.scrypt  # harnesses replace the hashlib attributes
try:
    _new("ripemd160", b"")
    _NATIVE_RMD = True
except ValueError:
    _NATIVE_RMD = False


def rmd(b):
    return _new("ripemd160", b).digest() if _NATIVE_RMD else ripemd160(b)


def hash160(b):
    return rmd(sha256(b))


# ----------------------------------------------------------------- base58
B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
RIPPLE = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"


def b58e(b, alphabet=B58):
    zeros = len(b) - len(b.lstrip(b"\0"))
    n = int.from_bytes(b, "big")
    digits = []
    while n:
        n, r = divmod(n, 58)
        digits.append(alphabet[r])
    return alphabet[0] * zeros + "".join(reversed(digits))


def b58d(s, alphabet=B58):
    """None when s is not base58 text."""
    n = 0
    for ch in s:
        i = alphabet.find(ch)
        if i < 0:
            return None
        n = n * 58 + i
    zeros = len(s) - len(s.lstrip(alphabet[0]))
    return b"\0" * zeros + n.to_bytes((n.bit_length() + 7) // 8, "big")


def b58ce(b, alphabet=B58):
    return b58e(b + dsha(b)[:4], alphabet)


def b58cd(s, alphabet=B58):
    d = b58d(s, alphabet)
    if d is None or len(d) < 4 or dsha(d[:-4])[:4] != d[-4:]:
        return None
    return d[:-4]


# ----------------------------------------------------------------- AES-256
def _aes_tables():
    sbox = [0] * 256
    p = q = 1
    while True:
        p = p ^ ((p << 1) & 0xFF) ^ (0x1B if p & 0x80 else 0)
        q ^= q << 1
        q ^= q << 2
        q ^= q << 4
        q &= 0xFF
        if q & 0x80:
            q ^= 0x09
        x = q ^ (q << 1 | q >> 7) ^ (q << 2 | q >> 6) ^ (q << 3 | q >> 5) ^ (q << 4 | q >> 4)
        sbox[p] = (x ^ 0x63) & 0xFF
        if p == 1:
            break
    sbox[0] = 0x63
    inv = [0] * 256
    for i, v in enumerate(sbox):
        inv[v] = i
    return sbox, inv


_SB, _IS = _aes_tables()


def _gm(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11B if a & 0x80 else 0)
        b >>= 1
    return r


_M = {c: [_gm(i, c) for i in range(256)] for c in (2, 3, 9, 11, 13, 14)}


def _expand(key):
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rcon = 1
    for i in range(8, 60):
        t = list(w[-1])
        if i % 8 == 0:
            t = [_SB[t[1]] ^ rcon, _SB[t[2]], _SB[t[3]], _SB[t[0]]]
            rcon = _gm(rcon, 2)
        elif i % 8 == 4:
            t = [_SB[v] for v in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return [sum((w[4 * r + c] for c in range(4)), []) for r in range(15)]


def aes_enc(key, block):
    assert len(key) == 32 and len(block) == 16
    ks = _expand(key)
    s = [a ^ b for a, b in zip(block, ks[0])]
    m2, m3 = _M[2], _M[3]
    for r in range(1, 15):
        s = [_SB[s[(i + 4 * (i % 4)) % 16]] for i in range(16)]
        if r != 14:
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t += [m2[a] ^ m3[b] ^ d ^ e, a ^ m2[b] ^ m3[d] ^ e, a ^ b ^ m2[d] ^ m3[e], m3[a] ^ b ^ d ^ m2[e]]
            s = t
        s = [a ^ b for a, b in zip(s, ks[r])]
    return bytes(s)


def aes_dec(key, block):
    assert len(key) == 32 and len(block) == 16
    ks = _expand(key)
    s = [a ^ b for a, b in zip(block, ks[14])]
    m9, m11, m13, m14 = _M[9], _M[11], _M[13], _M[14]
    for r in range(13, -1, -1):
        s = [_IS[s[(i - 4 * (i % 4)) % 16]] for i in range(16)]
        s = [a ^ b for a, b in zip(s, ks[r])]
        if r:
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t += [m14[a] ^ m11[b] ^ m13[d] ^ m9[e], m9[a] ^ m14[b] ^ m11[d] ^ m13[e],
                      m13[a] ^ m9[b] ^ m14[d] ^ m11[e], m11[a] ^ m13[b] ^ m9[d] ^ m14[e]]
            s = t
    return bytes(s)


# ----------------------------------------------------------------- keys
def int_bytes(n):
    return n.to_bytes(max(1, (n.bit_length() + 7) // 8), "big")


def wif(key, prefix, compressed):
    return b58ce(int_bytes(prefix) + key + (b"\x01" if compressed else b""))


def wif_parse(s, prefix):
    """(key, compressed, checksum) or None."""
    d = b58d(s)
    raw = b58cd(s)
    pb = int_bytes(prefix)
    if raw is None or not raw.startswith(pb):
        return None
    body = raw[len(pb):]
    if len(body) == 32:
        return body, False, d[-4:]
    if len(body) == 33 and body[-1] == 1:
        return body[:-1], True, d[-4:]
    return None


def address(point, prefix, compressed, alphabet=B58):
    return b58ce(int_bytes(prefix) + hash160(ser(point, compressed)), alphabet)


def xor(a, b):
    assert len(a) == len(b)
    return bytes(x ^ y for x, y in zip(a, b))


def norm(passphrase):
    return unicodedata.normalize("NFC", passphrase).encode("utf-8")


def _default_kdf(password, salt, n, r, p, dklen):
    return _scrypt(password, salt=salt, n=n, r=r, p=p, maxmem=128 << 20, dklen=dklen)


class KDF:
    """The key derivation function the reference uses; harnesses may replace `fn`."""
    fn = staticmethod(_default_kdf)


def kdf(password, salt, n, r, p, dklen):
    return KDF.fn(password, salt, n, r, p, dklen)


# ----------------------------------------------------------------- BIP38, no EC multiply
def encrypt(key, compressed, addr_prefix, passphrase):
    addr = address(mul_g(int.from_bytes(key, "big")), addr_prefix, compressed)
    ah = dsha(addr.encode("ascii"))[:4]
    d = kdf(norm(passphrase), ah, 16384, 8, 8, 64)
    e = aes_enc(d[32:], xor(key[:16], d[:16])) + aes_enc(d[32:], xor(key[16:], d[16:32]))
    return b58ce(b"\x01\x42" + (b"\xe0" if compressed else b"\xc0") + ah + e)


class Refused(Exception):
    """kind: 'format' (not a well-formed code) or 'passphrase' (address hash does not match)."""

    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


def decrypt(code, passphrase, wif_prefix, addr_prefix):
    """Dict with key, compressed, seed, lot, sequence, point, address; raises Refused."""
    raw = b58cd(code)
    if raw is None or len(raw) != 39:
        raise Refused("format")
    return decrypt_payload(raw, passphrase, wif_prefix, addr_prefix)


def decrypt_payload(raw, passphrase, wif_prefix, addr_prefix):
    flag, ah = raw[2], raw[3:7]
    pw = norm(passphrase)
    seed = lot = seq = None
    compressed = bool(flag & 0x20)
    if raw[:2] == b"\x01\x42":
        if flag not in (0xC0, 0xE0):
            raise Refused("format")
        d = kdf(pw, ah, 16384, 8, 8, 64)
        key = xor(aes_dec(d[32:], raw[7:23]) + aes_dec(d[32:], raw[23:39]), d[:32])
        k = int.from_bytes(key, "big")
        if not 0 < k < N:
            raise Refused("format")
    elif raw[:2] == b"\x01\x43":
        entropy = raw[7:15]
        has_lot = bool(flag & 4)
        pf = kdf(pw, entropy[:4] if has_lot else entropy, 16384, 8, 8, 32)
        if has_lot:
            pf = dsha(pf + entropy)
            ls = int.from_bytes(entropy[4:], "big")
            lot, seq = ls >> 12, ls & 4095
        f = int.from_bytes(pf, "big")
        if not 0 < f < N:
            raise Refused("format")
        d = kdf(ser(mul_g(f)), ah + entropy, 1024, 1, 1, 64)
        part2 = xor(aes_dec(d[32:], raw[23:39]), d[16:32])
        part1 = raw[15:23] + part2[:8]
        seed = xor(aes_dec(d[32:], part1), d[:16]) + part2[8:]
        b = int.from_bytes(dsha(seed), "big")
        if not 0 < b < N:
            raise Refused("format")
        k = f * b % N
        key = k.to_bytes(32, "big")
    else:
        raise Refused("format")
    pt = mul_g(k)
    addr = address(pt, addr_prefix, compressed)
    if dsha(addr.encode())[:4] != ah:
        raise Refused("passphrase")
    return dict(key=key, compressed=compressed, seed=seed, lot=lot, sequence=seq, point=pt, address=addr,
                wif=wif(key, wif_prefix, compressed))


# ----------------------------------------------------------------- BIP38, EC multiply
MAGIC_LOT = bytes.fromhex("2ce9b3e1ff39e251")
MAGIC_NOLOT = bytes.fromhex("2ce9b3e1ff39e253")
CFRM = bytes.fromhex("643bf6a89a")


def owner(passphrase, salt, lot=None, seq=None):
    """(pass factor int, owner entropy, magic)."""
    pw = norm(passphrase)
    if lot is not None:
        entropy = salt[:4] + (lot * 4096 + seq).to_bytes(4, "big")
        pf = dsha(kdf(pw, salt[:4], 16384, 8, 8, 32) + entropy)
        return int.from_bytes(pf, "big"), entropy, MAGIC_LOT
    return int.from_bytes(kdf(pw, salt, 16384, 8, 8, 32), "big"), salt, MAGIC_NOLOT


def intermediate(passphrase, salt, lot=None, seq=None):
    pf, entropy, magic = owner(passphrase, salt, lot, seq)
    return b58ce(magic + entropy + ser(mul_g(pf)))


def create(code, seed, compressed, addr_prefix):
    raw = b58cd(code)
    if raw is None or len(raw) != 49:
        raise Refused("format")
    magic, entropy, pp = raw[:8], raw[8:16], raw[16:]
    if magic == MAGIC_LOT:
        flag = 4
    elif magic == MAGIC_NOLOT:
        flag = 0
    else:
        raise Refused("format")
    if compressed:
        flag |= 0x20
    point = parse_pub(pp)
    if point is None:
        raise Refused("format")
    b = int.from_bytes(dsha(seed), "big")
    pub = mul(point, b)
    addr = address(pub, addr_prefix, compressed)
    ah = dsha(addr.encode())[:4]
    d = kdf(pp, ah + entropy, 1024, 1, 1, 64)
    e1 = aes_enc(d[32:], xor(seed[:16], d[:16]))
    e2 = aes_enc(d[32:], xor(e1[8:] + seed[16:], d[16:32]))
    enc = b58ce(b"\x01\x43" + bytes([flag]) + ah + entropy + e1[:8] + e2)
    pb = ser(mul_g(b))
    cf = (bytes([pb[0] ^ (d[63] & 1)]) + aes_enc(d[32:], xor(pb[1:17], d[:16]))
          + aes_enc(d[32:], xor(pb[17:], d[16:32])))
    return dict(encrypted_wif=enc, confirmation_code=b58ce(CFRM + bytes([flag]) + ah + entropy + cf),
                public_key=ser(pub, compressed).hex(), seed=seed.hex(),
                public_key_type="compressed" if compressed else "uncompressed", address=addr)


def confirm(code, passphrase, addr_prefix):
    raw = b58cd(code)
    if raw is None or len(raw) != 51 or raw[:5] != CFRM:
        raise Refused("format")
    flag, ah, entropy, enc = raw[5], raw[6:10], raw[10:18], raw[18:]
    has_lot, compressed = bool(flag & 4), bool(flag & 0x20)
    pf = kdf(norm(passphrase), entropy[:4] if has_lot else entropy, 16384, 8, 8, 32)
    lot = seq = None
    if has_lot:
        pf = dsha(pf + entropy)
        ls = int.from_bytes(entropy[4:], "big")
        lot, seq = ls >> 12, ls & 4095
    f = int.from_bytes(pf, "big")
    if not 0 < f < N:
        raise Refused("format")
    d = kdf(ser(mul_g(f)), ah + entropy, 1024, 1, 1, 64)
    pb = (bytes([enc[0] ^ (d[63] & 1)]) + xor(aes_dec(d[32:], enc[1:17]), d[:16])
          + xor(aes_dec(d[32:], enc[17:]), d[16:32]))
    b = parse_pub(pb)
    if b is None:
        raise Refused("passphrase")
    pub = mul(b, f)
    addr = address(pub, addr_prefix, compressed)
    if dsha(addr.encode())[:4] != ah:
        raise Refused("passphrase")
    return dict(public_key=ser(pub, compressed).hex(),
                public_key_type="compressed" if compressed else "uncompressed",
                address=addr, lot=lot, sequence=seq)


# ----------------------------------------------------------------- self test
def selftest(full=False):
    """Published vectors.  AssertionError here is a fault of the harness, not of /repo."""
    assert on_curve(*G) and mul_g(N - 1) == neg(G) and mul_g(0) is None
    assert mul(G, 12345678901234567890) == mul_g(12345678901234567890)
    assert mul_g(2) == (0xC6047F9441ED7D6D3045406E95C07CD85C778E4B8CEF3CA7ABAC09B95C709EE5,
                        0x1AE168FEA63DC339A3C58419466CEAEEF7F632653266D0E1236431A950CFE52A)
    assert aes_enc(bytes(range(32)), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() \
        == "8ea2b7ca516745bfeafc49904b496089"
    assert aes_dec(bytes(range(32)), bytes.fromhex("8ea2b7ca516745bfeafc49904b496089")).hex() \
        == "00112233445566778899aabbccddeeff"
    for m, h in [(b"", "9c1185a5c5e9fc54612808977ee8f548b2258d31"),
                 (b"abc", "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc"),
                 (b"1234567890" * 8, "9b752e45573d4b39f4dbd3323cab82bf63326bfb")]:
        assert ripemd160(m).hex() == h and rmd(m).hex() == h
    assert b58e(b"\0\0hello") == "11Cn8eVZg" and b58d("11Cn8eVZg") == b"\0\0hello"
    k = bytes.fromhex("cbf4b9f70470856bb4f40f80b87edb90865997ffee6df315ab166d713af433a5")
    assert wif(k, 0x80, False) == "5KN7MzqK5wt2TP1fQCYyHBtDrXdJuXbUzm4A9rKAteGu3Qi5CVR"
    assert wif(k, 0x80, True) == "L44B5gGEpqEDRS9vVPz7QT35jcBG2r3CZwSwQ4fCewXAhAhqGVpP"
    if full:
        fn = KDF.fn
        KDF.fn = staticmethod(_default_kdf)
        try:
            assert encrypt(k, False, 0, "TestingOneTwoThree") == \
                "6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg"
            assert encrypt(k, True, 0, "TestingOneTwoThree") == \
                "6PYNKZ1EAgYgmQfmNVamxyXVWHzK5s6DGhwP4J5o44cvXdoY7sRzhtpUeo"
            r = decrypt("6PRVWUbkzzsbcVac2qwfssoUJAN1Xhrg6bNk8J7Nzm5H7kxEbn2Nh2ZoGg", "TestingOneTwoThree", 0x80, 0)
            assert r["key"] == k
            # the passphrase of BIP38's Unicode vector and its published UTF-8 form after NFC
            assert norm("\u03d2\u0301\u0000\U00010400\U0001f4a9").hex() == "cf9300f0909080f09f92a9"
            r = decrypt("6PfQu77ygVyJLZjfvMLyhLMQbYnu5uguoJJ4kMCLqWwPEdfpwANVS76gTX", "TestingOneTwoThree", 0x80, 0)
            assert r["wif"] == "5K4caxezwjGCGfnoPTZ8tMcJBLB7Jvyjv4xxeacadhq8nLisLR2" and r["lot"] is None
            r = decrypt("6PgNBNNzDkKdhkT6uJntUXwwzQV8Rr2tZcbkDcuC9DZRsS6AtHts4Ypo1j", "MOLON LABE", 0x80, 0)
            assert r["wif"] == "5JLdxTtcTHcfYcmJsNVy1v2PMDx432JPoYcBTVVRHpPaxUrdtf8"
            assert (r["lot"], r["sequence"]) == (263183, 1)
            r = decrypt("6PgGWtx25kUg8QWvwuJAgorN6k9FbE25rv5dMRwu5SKMnfpfVe5mar2ngH",
                        "\u039c\u039f\u039b\u03a9\u039d \u039b\u0391\u0392\u0395", 0x80, 0)
            assert (r["lot"], r["sequence"]) == (806938, 1)
            r = confirm("cfrm38V8aXBn7JWA1ESmFMUn6erxeBGZGAxJPY4e36S9QWkzZKtaVqLNMgnifETYw7BPwWC9aPD", "MOLON LABE", 0)
            assert (r["lot"], r["sequence"]) == (263183, 1) and r["address"] == "1Jscj8ALrYu2y9TD8NrpvDBugPedmbj4Yh"
            assert intermediate("MOLON LABE", bytes.fromhex("d7ebe42cf42a79f4")) == \
                "passphraserDFxboKK9cTkBQMb73vdzgsXB5L6cCMFCzTVoMTpMWYD8SJXv3jcKyHbRWBcza"
            assert intermediate("MOLON LABE", bytes.fromhex("d7ebe42cf42a79f4"), 100000, 1) == \
                "passphrasedYVZ6EdRqSmcHHsYWmJ7wzWcWYuDQmf9EGH9Pnrv67eHy4qswaAGGc8Et3eeGp"
            r = create("passphrasedYVZ6EdRqSmcHHsYWmJ7wzWcWYuDQmf9EGH9Pnrv67eHy4qswaAGGc8Et3eeGp",
                       bytes.fromhex("9b6cad86daddae99ac3b76c1e47e61bc7f4665d02e10c290"), False, 0)
            assert r["encrypted_wif"] == "6PgRAPfrPWjPXfC6x9XB139RHzUP8GFcVen5Ju3qJDhRP69Q4Vd8Wbct6B"
            assert r["confirmation_code"] == \
                "cfrm38V8kEzECGczWJmEoGuYfkoamcmVij3tHUhD6DEEquSRXp61HzhnT8jwQwBBZiKs9Jg4LXZ"
        finally:
            KDF.fn = fn


if __name__ == "__main__":
    selftest(True)
    print("reference self-test ok")
