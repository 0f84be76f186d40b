"""Runs harnesses concretely on the unmodified library (real cdd, scipy, sympy).

usage: replay_server.py            serve JSON requests on stdin
       replay_server.py FILE.json  replay one saved counterexample (exit 1: violated)
"""
import contextlib
import importlib
import io
import json
import os
import signal
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT)
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("MPLCONFIGDIR", "/opt/vp/mpl")
sys.dont_write_bytecode = True


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def handle(req):
    from symx import harness
    mod = importlib.import_module("checks." + req["check"])
    fn = mod.HARNESSES[req["harness"]]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(req.get("timeout", 60)))
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            r = harness.run_concrete(fn, req["cfg"], req["inputs"], req.get("listed", ()))
    except Timeout:
        r = {"skip": False, "viols": [], "obs": [], "known": [], "timeout": True}
    finally:
        signal.alarm(0)
    return r


def main():
    import warnings
    warnings.simplefilter("ignore")
    from symx import env
    env.setup_concrete()
    if len(sys.argv) > 1:
        req = json.load(open(sys.argv[1]))
        r = handle(req)
        print(json.dumps(r, default=str, indent=1))
        sys.exit(1 if r["viols"] else 0)
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    for line in sys.stdin:
        req = json.loads(line)
        try:
            r = handle(req)
        except Exception as e:  # noqa: BLE001
            r = {"error": f"{type(e).__name__}: {e}", "viols": [], "obs": [], "known": [], "skip": False}
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
