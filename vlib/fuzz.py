"""Coverage-guided fuzzing of the operations that take a text, with Atheris (run by check C19 under python3-vt).

usage: fuzz.py OUT SEED RUNS CORPUS TARGET   Writes the failing case to OUT and ends with code 7 when an operation fails uncleanly.
"""
import json
import os
import sys

sys.path[:0] = [os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]

import atheris  # noqa: E402

with atheris.instrument_imports(include=["bip38"]):
    from vlib import env
    LIB = env.load("stub")
if not LIB.calibrated:
    env.use_real()

from checks import c19  # noqa: E402

OUT, SEED, RUNS, CORPUS, TARGET = sys.argv[1:6]
COUNT = {"runs": 0, "ok": 0, "library error": 0, "value error": 0}


def one(data):
    if COUNT["runs"] >= int(RUNS):
        finish(0)
    case = c19.from_bytes(data, TARGET)
    COUNT["runs"] += 1
    verdict, say = c19.outcome(LIB, case)
    if verdict == "unclean":
        with open(OUT, "w") as f:
            json.dump({"case": case, "message": say, "count": COUNT}, f)
        finish(7)
    COUNT[verdict] += 1
    if COUNT["runs"] % 50 == 0 or COUNT["runs"] == int(RUNS):
        with open(OUT + ".tmp", "w") as f:
            json.dump({"count": COUNT}, f)
        os.replace(OUT + ".tmp", OUT)


def finish(code):
    os._exit(code)


atheris.Setup([sys.argv[0], "-seed=%d" % (int(SEED) % 2**31 or 1), "-runs=%d" % (2 * int(RUNS)), "-max_len=160", "-timeout=100", "-len_control=0",
               "-artifact_prefix=" + CORPUS + "/", CORPUS], one)
atheris.Fuzz()
