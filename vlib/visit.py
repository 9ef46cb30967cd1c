"""Started as a process of its own by check C24: imports the library, runs operations, says what changed, and ends as any program does."""
import json
import os
import sys


def main():
    with open(sys.argv[1]) as f:
        conf = json.load(f)
    import concurrent.futures.thread  # noqa: F401
    import multiprocessing.util  # noqa: F401
    import shutil  # noqa: F401
    import socket  # noqa: F401
    import subprocess  # noqa: F401
    import tempfile  # noqa: F401
    import uuid  # noqa: F401

    import ecdsa  # noqa: F401
    import ecdsa.ellipticcurve  # noqa: F401
    import ecdsa.keys  # noqa: F401
    import pyaes  # noqa: F401
    import six  # noqa: F401

    from vlib import env, traces
    from checks import c16
    env.replace_kdf(conf["mode"])
    env.CALIBRATE = False
    if env.REPO not in sys.path[:1]:
        sys.path.insert(0, env.REPO)
    if "bip38" in sys.modules:
        raise RuntimeError("the library is already there")
    before = traces.snapshot()
    with traces.Effects() as effects:
        lib = env.load(conf["mode"])
        traces.settle(before)
        imported = traces.differences(before, traces.snapshot())
        world = c16.World(lib)
        done = [world.run(r)[0] for r in conf["ops"]]
        traces.settle(before)
        after = traces.differences(before, traces.snapshot())
    print("RESULT " + json.dumps({"imported": imported, "after": after, "effects": effects.seen, "done": done}))
    sys.stdout.flush()
    os.write(1, b"END\n")


if __name__ == "__main__":
    main()
