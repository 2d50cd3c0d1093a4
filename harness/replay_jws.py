"""Carries out behaviours generated from spec/JwsSys.tla with the real code.

Symbolic materials become keys of the pool, symbolic signatures real ones."""
import json

import progs
from common import K, POOL, foreign_key, jwk_of, pick, u
from drv_jws import ALGS, EC, OCT, RSA_S, Driver, Obj, b64u, raw_sign

BIG = ["r1040", "r1034", "r2048a", "r2055"]


class Replay(object):
    def __init__(self, scen, lists):
        self.s, self.d, self.rng = scen, scen.d, scen.rng
        self.lists = lists          # key lists of the specification, as records

    def mats(self):
        r = self.rng
        rs = r.sample(RSA_S, 3)
        e, e3 = r.sample(EC["P-256"], 2), pick(r, EC["P-384"])
        o = r.sample(OCT, 3)
        m = {"R1": rs[0], "R2": rs[1], "ADV_RSA": rs[2], "E1": e[0], "ADV_EC": e[1], "E2": e3,
             "H1": o[0], "H2": o[1], "ADV_OCT": o[2]}
        pub = POOL[m["R1"]]
        n = progs.rsaobj(progs.RsaMat(pub.n, pub.e))
        m["PUB"] = pick(r, [n.export_key("PEM"), n.export_key("DER"), u(progs.i2b(pub.n)).encode(), json.dumps(jwk_of(pub, False)).encode(),
                            progs.i2b(pub.n), b""])
        return m

    def mat(self, name):
        m = self.m[name]
        return m if isinstance(m, bytes) else POOL[m]

    def keys(self, n):
        out = []
        for k in self.lists[n - 1]:
            if k["mat"] == "F1":
                out.append(foreign_key("foo", k["kid"]))
            else:
                out.append(K(self.m[k["mat"]], True, pick(self.rng, ["jwk", "keyrep", "jwks"]), k["kid"], k["use"], k["alg"]))
        return out

    def header(self, h):
        d = {}
        if h["algk"] == "str":
            d["alg"] = h["alg"]
        elif h["algk"] == "null":
            d["alg"] = None
        elif h["algk"] == "other":
            d["alg"] = pick(self.rng, [5, ["RS256"], {"a": 1}, True, 0, False])
        if h["kid"]:
            d["kid"] = h["kid"]
        if h["crit"]:
            d["crit"] = pick(self.rng, [["x"], ["exp"], []])
        return b64u(json.dumps(d).encode())

    def sig(self, sig, h64, p64):
        mat, alg = sig[0], sig[1]
        if mat == "":
            return b""
        if mat == "junk":
            return pick(self.rng, [b"AA", b"c2ln", b"A" * 86, b"A" * 43])
        key = json.dumps(sig, sort_keys=True)
        if key in self.sigs:
            return self.sigs[key]
        try:
            return raw_sign(alg, self.mat(mat), h64, p64).split(b".")[2]
        except Exception:
            # the algorithm does not go with this kind of key
            return b"AAAA"

    def run(self, beh):
        d = self.d
        d.reset()
        self.m = self.mats()
        self.sigs, self.hdrs = {}, {}
        pays = {"a": b"payload a", "b": pick(self.rng, [b"payload b", b"b" * 70, b"\xc3\xa9"])}
        objs, toks, abst = {}, {}, {}
        for act in beh:
            a = act["a"]
            if a == "new":
                c, kw = act["cfg"], {}
                if c["haspin"]:
                    kw["alg"] = c["pin"]
                if c["haskid"]:
                    kw["kid"] = c["kid"]
                objs[act["obj"]] = Obj(d, **kw)
            elif a == "sign":
                p = pays[act["pay"]]
                t = d.sign(objs[act["obj"]], p, p, self.keys(act["list"]), what="behaviour")
                if act["tok"]:
                    toks[act["tok"]] = t.encode() if t else None
                    if t:
                        self.learn(act, t.encode())
            elif a == "forge":
                hk = json.dumps(act["h"], sort_keys=True)
                h64 = self.hdrs.setdefault(hk, self.header(act["h"]))
                p64 = b64u(pays[act["pay"]])
                toks[act["tok"]] = b".".join([h64, p64, self.sig(act["sig"], h64, p64)])
            elif a == "cut":
                t = toks.get(act["from"])
                if t is not None:
                    t = t.rpartition(b".")[0] if act["parts"] == 2 else t + b".eA" * (act["parts"] - 3)
                toks[act["tok"]] = t
            elif a == "verify":
                t = toks.get(act["tok"])
                if t is not None:
                    d.verify(objs[act["obj"]], t if self.rng.random() < .5 else t.decode(), self.keys(act["list"]), none=act["none"],
                             sigalg=act["sigalg"] or None, what="behaviour")
            elif a == "doc":
                ts = [toks.get(k) for k in act["toks"]]
                if any(t is None or t.count(b".") != 2 for t in ts):
                    continue
                doc = {"payload": ts[0].split(b".")[1].decode() if ts else "YQ"}
                es = [{"protected": t.split(b".")[0].decode(), "signature": t.split(b".")[2].decode()} for t in ts]
                if len(es) == 1 and self.rng.random() < .5:
                    doc.update(es[0])
                else:
                    doc["signatures"] = es
                d.verify(objs[act["obj"]], json.dumps(doc), self.keys(act["list"]), none=act["none"], what="behaviour", docform=True)

    def learn(self, act, t):
        """Remember what the honest signer's signature looks like"""
        h64, p64, s64 = t.split(b".")
        h = json.loads(progs.b64d(h64))
        ah = {"alg": h.get("alg"), "algk": "str", "kid": h.get("kid", ""), "crit": False}
        self.hdrs[json.dumps(ah, sort_keys=True)] = h64
        if h.get("alg") in ALGS:
            for n in ("R1", "R2", "E1", "E2", "H1", "H2"):
                self.sigs.setdefault(json.dumps([n, h["alg"], ah, act["pay"]], sort_keys=True), s64)
