"""Carries out behaviours generated from spec/JwkSys.tla with the real code."""
from common import POOL, pick
from drv_jws import EC, OCT


class Replay(object):
    def __init__(self, scen):
        self.s, self.d, self.rng = scen, scen.d, scen.rng

    def run(self, beh):
        d, rng = self.d, self.rng
        d.reset()
        rs = rng.sample(["r512", "r768", "r1024a", "r1024b", "r1024e3", "r1031"], 2)
        hs = rng.sample(OCT, 2)
        mats = {"R1": rs[0], "R2": rs[1], "E1": pick(rng, EC["P-256"]), "E2": pick(rng, EC["P-384"]), "E3": pick(rng, EC["P-521"]),
                "H1": hs[0], "H2": hs[1]}
        objs, docs = {}, {}
        for act in beh:
            a = act["a"]
            o = objs.get(act.get("obj"))
            if a == "new":
                m = POOL[mats[act["mat"]]]
                routes = [r for r in self.s.routes(m) if r not in ("wrap", "wrapadd", "dictfn")]
                objs[act["obj"]] = d.import_(m, act["private"], pick(rng, routes), "full", None, kid=act["kid"], use=act["use"], alg=act["alg"])
            elif a == "export":
                d.export(o, act["private"])
                # the export as it is then: read in later
                docs[act["doc"]] = d.keep(o, act["private"])
            elif a == "again":
                objs[act["obj"]] = d.read(docs[act["doc"]])
            elif a == "copy":
                objs[act["new"]] = d.copy(o)
            elif a == "header":
                d.public([o], act["how"])
            elif a == "set":
                d.set(o, act["attr"], act["val"])
            elif a == "addkid":
                d.addkid(o)
            elif a == "load":
                d.load(o, POOL[mats[act["mat"]]], act["private"])
            else:
                b = objs.get(act["other"])
                if a == "eq":
                    d.eq(o, b)
                elif a == "hash":
                    d.hash(o)
                    d.hash(b)
                elif a == "tp":
                    d.tp(o)
                elif a == "use":
                    d.use(o)
                elif a == "cross":
                    d.cross(o, b)
            if any(x is None for x in objs.values()):
                return
