#!/usr/bin/env python3
"""Decides one property:  check.py PROPERTY   (VERIF_SEED, VERIF_TIER)

Runs the model checking of the design specifications, lets the drivers
exercise the code in /repo, and has TLC decide whether what they recorded is
a behaviour of the specification.

exit 0: nothing but what known_findings.txt lists;  exit 1: violation."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import tlc                      # noqa: E402
from plan import PLAN, TRACE    # noqa: E402


def known_findings():
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                m = re.match(r"known: property=(\S+) clause=\"([^\"]*)\" match=\"([^\"]*)\" (.*)", l.strip())
                if m:
                    out.append(dict(zip(("property", "clause", "match", "text"), m.groups())))
    except IOError:
        pass
    return out


class Check(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLAN[prop]
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.models, self.viols, self.samples, self.broken = [], [], [], []
        self.traces = self.events = self.calls = self.scenarios = 0
        self.kinds = {}
        self.env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        self.env.update(PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
                        PYTHONPYCACHEPREFIX=os.path.join(self.scratch, "pyc"))

    def say(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a)
        sys.stdout.flush()

    def tiered(self, d):
        return d[self.tier] if isinstance(d, dict) else d

    def run(self):
        prog = tlc.programs(self.scratch)
        self.say("specification parsed, format programs written")
        behs = self.generate()
        workers = self.start_workers(prog, behs)
        models = self.tiered(self.plan.get("models", []))
        started = []
        for m, cfg, w, *control in models:
            started.append((m, cfg, control, tlc.Run(m, cfg, workers=w, scratch=self.scratch, mem="6g")))
        self.finish_workers(workers)
        for m, cfg, control, r in started:
            r.wait()
            if control:             # a faulty design, on which the invariant has to fail
                if "Invariant %s is violated" % control[0] not in r.text:
                    raise tlc.TlcError("model %s/%s should violate %s: %s" % (m, cfg, control[0], r.tail()))
                self.models.append({"module": m, "config": cfg, "control": "violates %s, as it must" % control[0]})
                continue
            if not r.ok():
                raise tlc.TlcError("model %s/%s: %s" % (m, cfg, r.tail()))
            g, d = r.stats()
            self.states += d
            self.transitions += g
            self.models.append({"module": m, "config": cfg, "states": d, "transitions": g})
            self.say("model", m, cfg, "%d states, %d transitions" % (d, g))
        return self.conclude()

    def generate(self):
        """Behaviours of the specification, to be carried out"""
        out = {}
        for mod, m, cfg, num, depth in self.tiered(self.plan.get("behaviours", [])):
            r = tlc.Run(m, cfg, scratch=self.scratch, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(self.seed)]).wait()
            b = r.lines("BEHAVIOUR")
            if not b:
                raise tlc.TlcError("behaviours of %s: %s" % (m, r.tail()))
            ls = r.lines("LISTS")
            out[mod] = {"behaviours": b, "lists": ls[0] if ls else None}
            g, d = r.stats()
            self.models.append({"module": m, "config": cfg, "simulated_states": g, "behaviours": len(b)})
            self.say("%d behaviours of %s generated" % (len(b), m))
        return out

    def start_workers(self, prog, behs):
        ws = []
        for mod, n, calls, secs in self.tiered(self.plan["drivers"]):
            for i in range(n):
                out = os.path.join(self.scratch, "%s-%d.nd" % (mod, i))
                cmd = [PY, os.path.join(HERE, "worker.py"), mod, self.prop, "%d.%d" % (self.seed, i), str(calls), str(secs), out, prog]
                if mod in behs:
                    b = dict(behs[mod], behaviours=behs[mod]["behaviours"][i::n])
                    with open(out + ".beh", "w") as f:
                        json.dump(b, f)
                    cmd.append(out + ".beh")
                err = open(out + ".err", "w")
                ws.append({"mod": mod, "i": i, "out": out, "cmd": cmd, "secs": secs,
                           "p": subprocess.Popen(cmd, env=self.env, stdout=err, stderr=err, cwd=self.scratch)})
        return ws

    def finish_workers(self, ws):
        for w in ws:
            w["end"] = time.time() + w["secs"] + 150
        running, val = list(ws), []
        while running:
            for w in list(running):
                if w["p"].poll() is None:
                    if time.time() > w["end"]:
                        w["p"].kill()
                        w["p"].wait()
                        raise RuntimeError("driver %s %d does not come to an end" % (w["mod"], w["i"]))
                    continue
                running.remove(w)
                if w["p"].returncode or not os.path.exists(w["out"] + ".stat"):
                    with open(w["out"] + ".err") as f:
                        text = f.read()[-3000:]
                    if os.sep + "jwkest" + os.sep in text:     # the code cannot even be imported or set up
                        self.viols.append({"clause": "the library fails", "what": text, "events": []})
                        continue
                    raise RuntimeError("driver %s %d: %s" % (w["mod"], w["i"], text))
                w["tlc"] = tlc.validate(TRACE[w["mod"]], w["out"], self.scratch)
                val.append(w)
            time.sleep(.05)
        self.say("drivers finished")
        for w in val:
            self.verdict(w, w["tlc"].wait())

    def verdict(self, w, r):
        with open(w["out"] + ".stat") as f:
            st = json.load(f)
        v, n = r.lines("VIOLS"), r.lines("EVENTS")
        if st["events"] and (not r.ok() or len(v) != 1 or n != [st["events"]]):
            raise tlc.TlcError("trace validation of %s: %s" % (w["out"], r.tail()))
        self.traces += st["scenarios"]
        self.events += st["events"]
        self.calls += st["calls"]
        self.scenarios += st["scenarios"]
        for k, c in st["kinds"].items():
            self.kinds[k] = self.kinds.get(k, 0) + c
        if len(self.samples) < 4:
            self.samples += st["samples"][:1]
        g, d = r.stats()
        self.states += d
        self.transitions += g
        for c in st["crashes"]:
            if not c["inside"]:
                self.broken.append("driver %s %d: %s" % (w["mod"], w["i"], c["what"]))
                continue
            self.viols.append({"clause": "the library fails", "what": c["what"], "worker": w["cmd"][2:8], "events": []})
        mine = [x for x in v[0] if self.prop in x["props"]] if v else []
        if mine:
            with open(w["out"]) as f:
                evs = f.read().splitlines()
            with open(w["out"] + ".info") as f:
                infos = f.read().splitlines()
            for x in mine[:200]:
                n = x["n"]
                k = n - 1
                while k > 0 and '"op": "reset"' not in evs[k - 1] and n - k < 60:
                    k -= 1
                x.update(event=json.loads(evs[n - 1]), info=json.loads(infos[n - 1]), worker=w["cmd"][2:8],
                         history=[json.loads(e) for e in evs[k:n - 1]])
                self.viols.append(x)

    def conclude(self):
        known, fresh, seen = known_findings(), [], {}
        for v in self.viols:
            text = json.dumps(v.get("info", v.get("what", "")), default=repr)
            for k in known:
                if k["property"] == self.prop and k["clause"] == v["clause"] and re.search(k["match"], text):
                    seen[k["text"]] = seen.get(k["text"], 0) + 1
                    break
            else:
                fresh.append(v)
        for t in seen:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "events_validated": self.events, "calls_into_the_code": self.calls, "calls_by_kind_and_outcome": self.kinds,
                           "models": self.models, "samples": self.samples,
                           "what": "states/transitions: TLC over the design specifications and over the recorded traces (one state per event); "
                                   "traces: driver scenarios and specification behaviours carried out with the code and decided by TLC"},
              "assumptions": self.plan.get("assumptions", []) + ["hashlib, hmac, zlib and pycryptodomex' AES, RSA and ECC are right",
                                                                "TLC and the CommunityModules are right"],
              "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        self.say("%d scenarios, %d calls, %d events validated, %d model states" % (self.scenarios, self.calls, self.events, self.states))
        replay = os.path.join(VERIF, "evidence", self.prop + "-replay.json")
        if os.path.exists(replay):
            os.unlink(replay)
        if not fresh:
            if self.broken:             # nothing was found, but the search came to nothing
                raise RuntimeError(self.broken[0])
            return 0
        with open(replay, "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "violations": fresh[:50]}, f, indent=1, default=repr)
        for v in fresh[:5]:
            print("  %s: %s" % (v["clause"], json.dumps(v.get("info", v.get("what")), default=repr)[:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, replay))
        return 1


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    c = Check(prop, tier if tier in ("quick", "thorough") else "quick", int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        rc = c.run()
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.scratch, ignore_errors=True)
        else:
            print("kept", c.scratch)
    sys.exit(rc)


if __name__ == "__main__":
    main()
