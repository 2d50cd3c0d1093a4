"""One driver process: exercises the code and writes a trace.

worker.py MODULE PROPERTY SEED CALLS SECONDS OUT PROGRAMS [BEHAVIOURS]"""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

MODULES = {"jws": "scen_jws", "jwe": "scen_jwe", "jwk": "scen_jwk", "keys": "scen_keys", "codec": "scen_codec", "ec": "scen_ec",
           "prim": "scen_prim", "fresh": "scen_fresh", "src": "scen_src", "pbk": "scen_pbk", "cli": "scen_cli"}


class Hang(Exception):
    """The code under test did not come to an end"""


def on_alarm(*_):
    raise Hang("no answer within the time limit")


def main():
    module, prop, seed, calls, secs, out, prog = sys.argv[1:8]
    if module == "fresh":
        import entropy  # noqa: F401 (counts from here on)
    import progs
    from common import Recorder
    programs = progs.load(prog)
    rec = Recorder(out)
    rng = random.Random("%s %s %s" % (module, prop, seed))
    sc = importlib.import_module(MODULES[module]).Scen(rec, rng, programs)
    start, crashes, scenarios = time.time(), [], 0
    calls, secs = int(calls), float(secs)
    signal.signal(signal.SIGALRM, on_alarm)
    behs, lists = [], None
    if len(sys.argv) > 8:
        with open(sys.argv[8]) as f:
            d = json.load(f)
        behs, lists = d["behaviours"], d["lists"]
    steps = sc.steps(prop, behs, lists)
    while rec.calls < calls and time.time() - start < secs and len(crashes) < 5:
        n0 = rec.n
        signal.setitimer(signal.ITIMER_REAL, 60)
        try:
            step = next(steps, None)
            if step is None:
                break
            step()
            scenarios += 1
        except Exception as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            tb = traceback.extract_tb(e.__traceback__)
            files = [f.filename for f in tb]
            inside = any(os.sep + "jwkest" + os.sep in f for f in files)
            crashes.append({"inside": inside, "n": n0, "what": "".join(traceback.format_exception(e))[-3000:]})
            if not inside:
                break
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    if hasattr(sc, "finish"):
        sc.finish()
    rec.close()
    with open(out + ".stat", "w") as f:
        json.dump({"events": rec.n, "calls": rec.calls, "kinds": rec.kinds, "samples": rec.sample, "crashes": crashes,
                   "scenarios": scenarios, "wall": time.time() - start}, f, default=repr)


if __name__ == "__main__":
    main()
