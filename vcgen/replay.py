#!/opt/veriftools/pyvenv/bin/python3
"""replay.py replays/X.json: compile the contract with the real sources natively (ASan) and run it on
the recorded inputs; exit 1 when the violation reproduces."""
import json, os, sys, tempfile, shutil
import check
j = json.load(open(sys.argv[1]))
f = os.path.join(check.VERIF, j["file"])
d = tempfile.mkdtemp(prefix="vp_replay_")
try:
    exe, err = check.build_native(f, check.meta(f), j["contract"], d)
    if exe is None:
        print(err)
        sys.exit(2)
    print("obligation:", j["obligation"])
    for i in j["inputs"] or []:
        print("  input", i["n"], "=", i["v"] if i["t"] != "buf" else i["v"][:64])
    bad, why, _ = check.native_replay(exe, j["inputs"], d)
    print("reproduced:" if bad else "not reproduced:", why)
    sys.exit(1 if bad else 0)
finally:
    shutil.rmtree(d, ignore_errors=True)
