"""Started as a process of its own by check C17: prints salts and seeds the library chose."""
import json
import sys


def main():
    from vlib import env, ref
    lib = env.load("stub")
    conf = json.loads(sys.argv[1])
    from checks import c17
    print(json.dumps([[s.hex(), d.hex()] for s, d in c17.draw_pairs(lib, conf, conf["n"], ref)]))


if __name__ == "__main__":
    main()
