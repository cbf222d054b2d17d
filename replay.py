#!/usr/bin/env python3
"""replay.py <replays/Cxx.json> -- runs the recorded failing input on the code
in /repo (or DV_REPO).  Exit 1 when the contract still fails, 0 when it holds,
2 when the file names a failed obligation without an input."""
import sys, os, json, random, importlib

VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("DV_CHILD") != "1" and os.path.exists(VENV):
    env = dict(os.environ, DV_CHILD="1", PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0")
    env.pop("PYTHONPATH", None)
    os.execve(VENV, [VENV, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    body = json.load(open(sys.argv[1], encoding="utf-8"))
    print(f"property {body['property']}, harness {body['harness']}, obligation: {body['obligation']}")
    if body.get("inputs") is None:
        print(json.dumps(body.get("verifier"), indent=1))
        sys.exit(2)
    from dv import concvc
    from dv.common import dec
    spec = importlib.import_module("specs." + body["property"].lower())
    h = {h.name: h for h in spec.HARNESSES}[body["harness"]]
    for k, v in body["inputs"].items():
        print(f"  {k} = {v}")
    concvc.setup()
    st, name, detail, *_ = concvc.run_once(h, random.Random(0), {k: dec(v) for k, v in body["inputs"].items()}, False)
    print(st, name or "", detail or "")
    sys.exit(1 if st == "fail" else 0)


main()
