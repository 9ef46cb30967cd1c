"""Makes vlib/data/mined.json: keys and seeds with rare shapes (leading zeros where codecs lose them).

Development tool; its output is committed.  python tools/mine.py
"""
import json
import multiprocessing
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import ref  # noqa: E402

Z = b"\0\0"


def key_shapes(k, pt):
    x, y = pt[0].to_bytes(32, "big"), pt[1].to_bytes(32, "big")
    c, u = ref.hash160(ref.ser(pt, True)), ref.hash160(ref.ser(pt, False))
    out = []
    for name, b in (("x", x), ("y", y), ("hc", c), ("hu", u), ("x2", x[16:]), ("x1", x[1:])):
        if b.startswith(Z):
            out.append(name + " starts 0000")
        if name in "xy" and b.endswith(Z):
            out.append(name + " ends 0000")
    for name, h in (("c", c), ("u", u)):
        chk = ref.dsha(b"\0" + h)[:4]
        if chk.startswith(Z) or chk.endswith(Z):
            out.append(name + " address checksum 0000")
        if b"\0" == chk[:1] or h[:1] == b"\0" or k % 37 == 0:
            ah = ref.dsha(ref.b58ce(b"\0" + h).encode())[:4]
            if ah.startswith(Z) or ah.endswith(Z):
                out.append(name + " address hash 0000")
    raw = k.to_bytes(32, "big")
    for name, tail in (("u", b""), ("c", b"\x01")):
        chk = ref.dsha(b"\x80" + raw + tail)[:4]
        if chk.startswith(Z) or chk.endswith(Z) or chk.startswith(b"\x01\0") or chk[:3] == b"\x01\x01\x01":
            out.append(name + " wif checksum")
    return out


def mine_keys(args):
    start, count = args
    k = start
    pt = ref.mul_g(k)
    found = {}
    for _ in range(count):
        for s in key_shapes(k, pt):
            found.setdefault(s, []).append(k.to_bytes(32, "big").hex())
        k += 1
        pt = ref.add(pt, ref.G)
    return found


def mine_seeds(args):
    start, count = args
    found = {}
    for i in range(count):
        seed = ref.sha256(b"seed %d %d" % (start, i))[:24]
        f = ref.dsha(seed)
        if f.startswith(Z) or f.endswith(Z):
            found.setdefault("factor 0000", []).append(seed.hex())
        if i % 25 == 0:
            x = ref.mul_g(int.from_bytes(f, "big"))[0].to_bytes(32, "big")
            if x.startswith(b"\0"):
                found.setdefault("x 00", []).append(seed.hex())
            if x[16:].startswith(b"\0"):
                found.setdefault("x2 00", []).append(seed.hex())
    return found


def main():
    with multiprocessing.Pool(8) as pool:
        starts = [int.from_bytes(ref.sha256(b"mine %d" % i), "big") % ref.N for i in range(64)]
        keys, seeds = {}, {}
        for f in pool.imap(mine_keys, [(s, 30000) for s in starts]):
            for k, v in f.items():
                keys.setdefault(k, []).extend(v)
        for f in pool.imap(mine_seeds, [(i, 20000) for i in range(16)]):
            for k, v in f.items():
                seeds.setdefault(k, []).extend(v)
    for d in (keys, seeds):
        for k, v in sorted(d.items()):
            print(k, len(v))
    out = {"keys": sorted({x for v in keys.values() for x in v[:8]}),
           "seeds": sorted({x for v in seeds.values() for x in v[:10]})}
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "data", "mined.json")
    with open(path, "w") as f:
        json.dump(out, f, indent=0)


if __name__ == "__main__":
    main()
