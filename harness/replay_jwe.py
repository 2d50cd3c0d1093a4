"""Carries out behaviours generated from spec/JweSys.tla with the real code.

Symbolic materials become keys of the pool, symbolic tokens real ones."""
import json
import os

import absjwe
import progs
from common import K, POOL, foreign_key, jwk_of, pick, u
from drv_jwe import Obj, b64u
from drv_jws import EC, OCT

CEKLEN = dict(zip(absjwe.ENCS, (32, 48, 64, 16, 24, 32)))


class Replay(object):
    def __init__(self, scen, lists):
        self.s, self.d, self.rng = scen, scen.d, scen.rng
        self.lists = lists

    def mats(self):
        r = self.rng
        rs = r.sample(["r1024a", "r1024b", "r1031", "r1040", "r2048a", "r2048b"], 3)
        e, e2 = r.sample(EC["P-256"], 3), pick(r, EC["P-384"])
        o = r.sample(OCT, 3)
        return {"R1": rs[0], "R2": rs[1], "ADV_RSA": rs[2], "E1": e[0], "E3": e[1], "ADV_EC": e[2], "E2": e2, "H1": o[0], "H2": o[1],
                "ADV_OCT": o[2]}

    def keys(self, n):
        out = []
        for k in self.lists[n - 1]:
            if k["mat"] == "F1":
                out.append(foreign_key("foo", k["kid"]))
            else:
                out.append(K(self.m[k["mat"]], k["priv"], pick(self.rng, ["jwk", "keyrep", "jwks"]), k["kid"], k["use"], k["alg"]))
        return out

    def cek(self, term, enc):
        key = (json.dumps(term), enc)
        if key not in self.ceks:
            self.ceks[key] = os.urandom(CEKLEN.get(enc, 32))
        return self.ceks[key]

    def seal(self, act):
        from scen_jwe import Sender, naive_mul
        h, m, rng = act["h"], POOL[self.m[act["mat"]]], self.rng
        hd = {}
        if h["kid"]:
            hd["kid"] = h["kid"]
        if h["crit"]:
            hd["crit"] = pick(rng, [["x"], ["exp"], []])
        alg = h["alg"]
        over = {"cek": self.cek(act["cek"], h["enc"])}
        matching = absjwe.TYPE.get(alg) == ("oct" if isinstance(m, bytes) else m.kty)
        if act["junk"] or not matching or h["enc"] not in absjwe.ENCS:
            # no key can come of it: anything will do for the key part
            over["ek"] = os.urandom(rng.choice([0, 24, 40, 128]))
            if not matching:
                hd["alg"] = alg
                alg = "dir"
        if alg in absjwe.EC:
            own, crv, _ = act["epk"]
            if own == "none":
                hd["epk"] = ...
            elif own == "off":
                P, w = progs.PRIME[crv], progs.WIDTH[crv]
                while True:
                    pt = (rng.randrange(P), rng.randrange(P))
                    if not progs.on_curve(crv, *pt):
                        break
                try:
                    z = naive_mul(P, pt, m.d)
                    z = progs.i2b(z[0], w) if z else b"\0" * w
                except ValueError:
                    z = b"\0" * w
                over["z"] = z
                hd["epk"] = {"kty": "EC", "crv": crv, "x": u(progs.i2b(pt[0], w)), "y": u(progs.i2b(pt[1], w))}
            elif crv != m.crv:
                q = progs.ec_point(crv, *progs.GEN[crv]) * rng.randrange(1, progs.ORDER[crv])
                w = progs.WIDTH[crv]
                hd["epk"] = {"kty": "EC", "crv": crv, "x": u(progs.i2b(int(q.x), w)), "y": u(progs.i2b(int(q.y), w))}
        enc = h["enc"]
        if enc not in absjwe.ENCS:
            hd["enc"] = enc
            enc = "A128CBC-HS256"
            over["cek"] = over["cek"][:32]
        return Sender(rng, alg, enc, m, self.pays[act["pay"]], hd, h["zip"] == "DEF", **over).token()

    def learn(self, tok):
        """What the adversary can open with its own keys"""
        h = absjwe.header_of(tok.split(b".")[0]) or {}
        for n in ("ADV_RSA", "ADV_OCT", "ADV_EC"):
            _, _, pt, _ = absjwe.epk_of(h)
            r = absjwe.open_with(h.get("alg"), h.get("enc"), h.get("zip") == "DEF", tok.split(b"."), POOL[self.m[n]], pt,
                                 absjwe.party(h, "apu")[0], absjwe.party(h, "apv")[0])
            if r:
                return r[1]

    def run(self, beh):
        d, rng = self.d, self.rng
        d.reset()
        self.m, self.ceks = self.mats(), {}
        self.pays = {"a": b"payload a", "b": pick(rng, [b"payload b", b"", b"b" * 70])}
        objs, toks = {}, {}
        made = 0
        for act in beh:
            a = act["a"]
            if a == "new":
                c = act["cfg"]
                kw = {k: c[k] for k in ("alg", "enc", "zip") if c[k]}
                if c["haskid"]:
                    kw["kid"] = c["kid"]
                objs[act["obj"]] = Obj(d, **kw)
            elif a == "encrypt":
                p = self.pays[act["pay"]]
                t = d.encrypt(objs[act["obj"]], p, self.keys(act["list"]), what="behaviour")
                if act["tok"]:
                    made += 1
                    toks[act["tok"]] = t.encode() if t else None
                    if t:
                        cek = self.learn(t.encode())
                        if cek:
                            enc = objs[act["obj"]].kw.get("enc")
                            self.ceks[(json.dumps(["cek", made]), enc)] = cek
            elif a == "seal":
                toks[act["tok"]] = self.seal(act)
            elif a == "splice":
                x, y = toks.get(act["from"]), toks.get(act["with"])
                if x and y:
                    i = ["h", "ek", "iv", "ct", "tag"].index(act["part"])
                    x, y = x.split(b"."), y.split(b".")
                    if len(x) == len(y) == 5:
                        x[i] = y[i]
                    toks[act["tok"]] = b".".join(x)
            elif a == "cut":
                t = toks.get(act["from"])
                if t:
                    t = b".".join((t.split(b".") + [b"eA"])[:act["parts"]])
                toks[act["tok"]] = t
            elif a == "decrypt":
                t = toks.get(act["tok"])
                if t:
                    d.decrypt(objs[act["obj"]], t.decode(), self.keys(act["list"]), want=act["want"] or None, what="behaviour")
