"""Writes MANIFEST.json from the checks present.  python tools/manifest.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Random exploration with shrinking: no violation on the generated cases counted in the evidence; no claim of absence. "
TECH = {
    "C01": ("property-based round trip (Hypothesis), real and steerable KDF", "Trusts vlib/ref.py for what a WIF denotes."),
    "C02": ("differential property-based testing against an independent BIP38 implementation", "Trusts vlib/ref.py (self-tested on BIP38's vectors)."),
    "C03": ("property-based agreement of the whole EC-multiply chain", "Trusts vlib/ref.py for public key and address of a private key."),
    "C04": ("differential property-based testing against an independent BIP38 implementation", "Trusts vlib/ref.py (self-tested on BIP38's vectors)."),
    "C05": ("property-based testing: generated wrong passphrases incl. steered KDF outputs", "Passphrases scrypt itself cannot tell apart are excluded."),
    "C06": ("metamorphic property-based testing over NFC-equivalent and nearly equal texts", "Trusts Python's unicodedata for NFC."),
    "C07": ("property-based testing: generated edits of genuine codes", "Edits that happen to be well-formed (chance 2^-32) are skipped."),
    "C08": ("property-based forging: consistent payloads under altered fields, splices, random payloads", "Trusts vlib/ref.py for address hashes."),
    "C09": ("property-based testing over pairs of coins and networks, with a reference model of selection", "Coins writing addresses in their own alphabet are excluded."),
    "C10": ("differential property-based testing of the WIF codec against a reference parser", "Trusts vlib/ref.py."),
    "C11": ("differential property-based testing of the address codec", "Trusts vlib/ref.py."),
    "C12": ("differential property-based testing against an independent secp256k1", "Trusts vlib/ref.py."),
    "C13": ("property-based bijection and differential testing of Base58", "Trusts vlib/ref.py."),
    "C14": ("differential property-based testing of the hashes, with and without OpenSSL RIPEMD-160", "Trusts hashlib's SHA-256 and vlib/ref.py's RIPEMD-160."),
    "C15": ("property-based testing of argument limits against a validity model", "Lot and sequence are integers or decimal texts."),
    "C16": ("stateful testing of generated histories and controlled thread schedules against pristine processes", "Preemption is explored at line granularity inside bip38."),
    "C17": ("statistical property-based testing of defaults over histories, forks, threads and reseeding", "Black box statistics: false alarm chance below 1e-12 per run; a generator of hidden low entropy is found only when values repeat or follow the seeds tried."),
    "C18": ("exhaustive comparison with the documented table plus generated use of every coin", "The golden table was transcribed from the documentation and agrees with it."),
    "C19": ("fuzzing of every operation taking a code: Hypothesis grammar and coverage-guided Atheris", "Termination is judged at 100 s of processor time."),
    "C20": ("property-based inverse laws and differential testing of the conversions", "Trusts Python's int.to_bytes and bytes.hex."),
    "C23": ("property-based testing with a matrix of kinds and with codes forged under undefined layouts", "Reserved flag bits of EC-multiplied codes are left open."),
    "C24": ("stateful testing of generated histories between two snapshots of the process, with audit events, and in fresh processes", "System calls outside Python's audit events are seen only by the files or descriptors they leave."),
    "C25": ("stateful fault injection: generated histories with interruptions, failing key derivations and failing random sources against undisturbed runs", "Interruptions come where a Python function is called."),
    "C22": ("property-based information flow testing: generated secrets searched for in all messages and output", "A part of a secret is 10 characters of it as text, hexadecimal, decimal or Base58."),
    "C21": ("metamorphic property-based testing over equivalent argument forms", "None beyond the code itself."),
}


def main():
    checks, missing = [], []
    for p in sorted(TECH):
        if os.path.exists(os.path.join(ROOT, "checks", p.lower() + ".py")):
            cmd = "/opt/venv/bin/python run.py " + p
            checks.append({"property": p, "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                           "technique": TECH[p][0], "level": "exploration", "level_note": NOTE + TECH[p][1]})
        else:
            missing.append({"property": p, "reason": "check not built yet"})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m vlib.ref", "checks": checks, "not_applicable": missing}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
