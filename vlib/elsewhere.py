"""Started as a process of its own by check C16: runs the operations of a file and prints their outcomes."""
import json
import sys


def main():
    from vlib import env
    with open(sys.argv[1]) as f:
        conf = json.load(f)
    lib = env.load(conf["mode"])
    from checks import c16
    world = c16.World(lib)
    res = [world.run(r) for r in conf["ops"]]
    print("RESULT " + json.dumps(res))


if __name__ == "__main__":
    main()
