"""Makes vlib/data/pairs.json: pairs of private keys whose Bitcoin address hashes agree in two or three of the four bytes, or
are made of the same bytes in another order.

Development tool; its output is committed.  python tools/pairs.py
"""
import itertools
import json
import multiprocessing
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import ref  # noqa: E402


def hashes(args):
    start, count = args
    k, pt, out = start, ref.mul_g(start), []
    for _ in range(count):
        out.append((k, [ref.dsha(ref.address(pt, 0, c).encode())[:4] for c in (False, True)]))
        k += 1
        pt = ref.add(pt, ref.G)
    return out


def main():
    with multiprocessing.Pool(8) as pool:
        starts = [int.from_bytes(ref.sha256(b"pairs %d" % i), "big") % ref.N for i in range(64)]
        rows = [r for part in pool.imap(hashes, [(s, 3200) for s in starts]) for r in part]
    res = []
    for comp in (0, 1):
        for size, least in ((3, 6), (2, 3)):
            for keep in itertools.combinations(range(4), size):
                seen, n = {}, 0
                for k, hs in rows:
                    part = bytes(hs[comp][i] for i in keep)
                    other = seen.setdefault(part, (k, hs[comp]))
                    if other[0] != k and other[1] != hs[comp] and sum(a == b for a, b in zip(other[1], hs[comp])) == size:
                        res.append([bool(comp), "%064x" % other[0], "%064x" % k])
                        n += 1
                        if n == least:
                            break
        for name, key in (("sorted", lambda h: bytes(sorted(h))), ("sum", lambda h: sum(h)), ("xor", lambda h: h[0] ^ h[1] ^ h[2] ^ h[3])):
            seen, n = {}, 0
            for k, hs in rows:
                other = seen.setdefault(key(hs[comp]), (k, hs[comp]))
                if other[1] != hs[comp]:
                    res.append([bool(comp), "%064x" % other[0], "%064x" % k])
                    n += 1
                    if n == 3:
                        break
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "vlib", "data", "pairs.json")
    with open(path, "w") as f:
        json.dump(sorted(res), f, indent=0)
    print(len(res))


if __name__ == "__main__":
    main()
