"""Drives jwkest.jwk.KEYS and records what it does (events for
spec/KeysTrace.tla, C14)."""
import json

import absjws
import net
from common import POOL, build, crv_of, fresh, jwk_of, kty_of, matname, native_rsa, pick, weighted
from drv_jwk import CLS, abskey, text_attr
from drv_jws import EC, OCT
from progs import RsaMat

from jwkest.ecc import NISTEllipticCurve
from jwkest.jwk import Key, KEYS

SMALL = ["r512", "r768", "r1024a", "r1024e3", "r1031"]
KIDS = ["", "", "k1", "k1", "k2", "K1", "\u00e9"]
FIELDS = ("kty", "crv", "pub", "priv", "kid", "use", "alg")


class Scen(object):
    def __init__(self, rec, rng, programs):
        absjws.PROG = programs
        self.rec, self.rng = rec, rng
        self.reset()

    # -- the objects

    def reset(self):
        self.rec.emit({"op": "reset"})
        self.colls, self.ids, self.hold, self.n, self.oddities = {}, {}, [], 0, False

    def ident(self, k):
        if id(k) not in self.ids:
            self.ids[id(k)] = "o%d" % (len(self.ids) + 1)
            self.hold.append(k)          # identities stay unique
        return self.ids[id(k)]

    def held(self):
        return {c: [self.ident(k) for k in list(ks)] for c, ks in self.colls.items()}

    def records(self):
        out = {}
        for k in self.hold:
            try:
                out[self.ids[id(k)]] = {f: abskey(k)[0][f] for f in FIELDS} if type(k) is not Key else self.foreign(k)
            except Exception as e:
                if not self.oddities:
                    raise
                out[self.ids[id(k)]] = {f: "unreadable" for f in FIELDS}
        return out

    def foreign(self, k):
        return {"kty": text_attr(k.kty), "crv": "", "pub": "foreign", "priv": False, "kid": text_attr(k.kid), "use": text_attr(k.use),
                "alg": text_attr(k.alg)}

    def emit(self, ev, info):
        ev.update(now=self.held())
        ev["keys"] = self.records()
        self.rec.emit(ev, info)

    def new(self, c):
        self.colls[c] = KEYS()
        self.rec.emit({"op": "new", "c": c})

    def attempt(self, f):
        try:
            return f(), None
        except Exception as e:
            return None, {"kind": "err", "cls": type(e).__name__}

    # -- items

    def template(self, kty=None, kid=None, good=True):
        """(JWK dict, item record)"""
        rng = self.rng
        kty = kty or pick(rng, ["RSA", "EC", "oct", "RSA", "EC", "oct", "foo"])
        at = {"kid": pick(rng, KIDS) if kid is None else kid, "use": pick(rng, ["", "", "sig", "enc"]), "alg": pick(rng, ["", "", "", "RS256", "A128KW"])}
        at = {k: v for k, v in at.items() if v}
        if kty == "foo":
            d = dict(at, kty=pick(rng, ["foo", "FOO"]), v="AAAA")
            r = {"kty": d["kty"], "crv": "", "pub": "foreign", "priv": False}
        else:
            crv = pick(rng, ["P-256", "P-384", "P-521"])
            m = POOL[pick(rng, SMALL if kty == "RSA" else EC[crv] if kty == "EC" else OCT) if rng.random() < .8 else fresh(rng, kty, crv)]
            private = kty == "oct" or rng.random() < .5
            d = jwk_of(m, private, **at)
            r = {"kty": kty, "crv": crv_of(m), "pub": matname(m), "priv": private}
        r.update({a: at.get(a, "") for a in ("kid", "use", "alg")})
        if not good:
            d = self.spoil(d)
        return d, {"good": good, "id": "", "key": r}

    def spoil(self, d):
        rng = self.rng
        d = dict(d)
        r = rng.randrange(3)
        ms = [k for k in d if k in ("n", "e", "x", "y", "k")]
        if r == 0 and ms:
            k = pick(rng, ms)
            d[k] = pick(rng, ["*", "+"]) + d[k][1:]
        elif r == 1 and "crv" in d:
            d["crv"] = "P-111"
        else:
            del d["kty"]
        return d

    # -- additions

    def add(self, c, how, tmpl):
        rng, ks = self.rng, self.colls[c]
        docs, items = [t[0] for t in tmpl], [t[1] for t in tmpl]
        if how == "add":
            enc = rng.random()
            _, err = self.attempt(lambda: ks.add(docs[0]) if enc < .6 else ks.add(docs[0], enc=None) if enc < .8 else ks.add(docs[0], "utf-8"))
        elif how == "dict":
            _, err = self.attempt(lambda: ks.load_dict({"keys": docs}))
        elif how == "jwks":
            text = json.dumps({"keys": docs, "x": 1} if rng.random() < .2 else {"keys": docs}, ensure_ascii=rng.random() < .5)
            _, err = self.attempt(lambda: ks.load_jwks(text))
        else:
            net.home().put("jwks", json.dumps({"keys": docs}).encode())
            _, err = self.attempt(lambda: ks.load_from_url(net.home().base + "jwks"))
        self.emit({"op": how, "c": c, "items": items, "out": err or {"kind": "ok"}}, {"what": how, "docs": docs})

    def broken(self, c):
        """What is no key set"""
        rng, ks = self.rng, self.colls[c]
        r = rng.randrange(6)
        if r == 0:
            how, f = "jwks", lambda: ks.load_jwks(pick(rng, ["", "{", "[]", "nope", '{"keys":5}', '{"Keys":[]}', "null"]))
        elif r == 1:
            how, f = "dict", lambda: ks.load_dict(pick(rng, [{}, {"key": []}, None, []]))
        elif r == 2:
            how, f = "wrap", lambda: ks.wrap_add(pick(rng, [5, None, [], {}, object()]))
        elif r == 3:
            how, f = "add", lambda: ks.add(pick(rng, [{}, {"n": "AQAB"}, None, "k", 5]))
        else:
            how = "url"
            text, status = pick(rng, [("", 404), ("{}", 500), ("x", 200), ('{"kid":1}', 200), ("", 0)])
            net.home().put("bad", text.encode(), status or 200)
            f = lambda: ks.load_from_url(net.home().base + "bad" if status else "http://127.0.0.1:1/")
        _, err = self.attempt(f)
        self.emit({"op": how, "c": c, "items": [{"good": False, "id": "", "key": {}}], "out": err or {"kind": "ok"}}, {"what": "broken " + how})

    def append(self, c, k):
        if k is None:
            d, it = self.template()
            k = Key(**{a: d[a] for a in d if a != "v"}) if it["key"]["pub"] == "foreign" else CLS[d["kty"]](**d)
        # the object exists before it is added
        r, _ = abskey(k)
        i = self.ident(k)
        rec = {f: r[f] for f in FIELDS} if type(k) is not Key else self.foreign(k)
        _, err = self.attempt(lambda: self.colls[c].append(k))
        self.emit({"op": "append", "c": c, "items": [{"good": True, "id": i, "key": rec}], "out": err or {"kind": "ok"}}, {"what": "append"})

    def wrap(self, c):
        rng, ks = self.rng, self.colls[c]
        at = {"kid": pick(rng, KIDS), "use": pick(rng, ["", "sig"])}
        kty = pick(rng, ["RSA", "RSA", "oct", "EC"])
        if kty == "RSA":
            m = POOL[pick(rng, SMALL)]
            private = rng.random() < .5
            key = native_rsa(m, private)
            want = {"kty": "RSA", "crv": "", "pub": matname(m), "priv": private}
        elif kty == "oct":
            m = pick(rng, ["a secret", "\u00e9" * 9, "x" * 40]).encode()
            key = m.decode()
            want = {"kty": "oct", "crv": "", "pub": matname(m), "priv": True}
        else:
            crv = pick(rng, ["P-256", "P-384", "P-521"])
            key = NISTEllipticCurve.by_name(crv)
            want = None
        n = len(list(ks))
        how = rng.randrange(3)
        _, err = self.attempt(lambda: ks.wrap_add(key, at["use"], at["kid"]) if how else ks.wrap_add(key, kid=at["kid"], use=at["use"]))
        if want is None:        # a pair of its own making: taken as it is
            pub = "?"
            if len(list(ks)) > n:
                from progs import EcMat
                k = list(ks)[-1]
                if isinstance(k.d, int):
                    matname(EcMat(crv, k.x, k.y, k.d))
                pub = abskey(k)[0]["pub"]
            want = {"kty": "EC", "crv": crv, "pub": pub, "priv": True}
        want.update(at, alg="")
        self.emit({"op": "wrap", "c": c, "items": [{"good": True, "id": "", "key": want}], "out": err or {"kind": "ok"}}, {"what": "wrap " + kty})

    # -- views

    def view(self, c, what, arg=None):
        rng, ks = self.rng, self.colls[c]
        I = self.ident
        known = set(self.ids)

        def ids(x):
            return [I(k) if id(k) in known else "a stranger" for k in x]
        if what == "type":
            arg = arg or pick(rng, ["RSA", "rsa", "EC", "ec", "oct", "OCT", "foo", "FOO", "RSA", "", "R", "SA", "o", "e", "c", "ct", "RSAKey", "fo", "A", "OKP", "ecc"])
            f = lambda: ids(ks[arg])
        elif what == "kid":
            arg = pick(rng, KIDS + KIDS + ["nope", "", "k", "K1", "1"]) if arg is None else arg
            f = lambda: ids(ks.by_kid(arg))
        elif what == "again":
            def f():
                if any(type(k) is Key for k in list(ks)):
                    return None
                text = pick(rng, [ks.dump_jwks, ks.__str__, ks.__repr__])()
                n = KEYS()
                n.load_jwks(text)
                return [{x: abskey(k)[0][x] for x in FIELDS} for k in n]
        else:
            f = {"iter": lambda: ids(k for k in ks), "list": lambda: ids(list(ks)), "keys": lambda: ids(ks.keys()), "len": lambda: len(ks),
                 "kids": lambda: [text_attr(x) for x in ks.kids()], "types": lambda: [text_attr(x) for x in ks.key_types()],
                 "dict": lambda: {k: ids(v) for k, v in ks.as_dict().items()}}[what]
        r, err = self.attempt(f)
        if what == "again" and r is None and not err:
            return
        self.emit({"op": "view", "c": c, "what": what, "arg": arg or "", "out": err or {"kind": "ok", "r": r}}, {"what": what, "arg": arg})

    VIEWS = ["iter", "list", "keys", "len", "type", "type", "kid", "kid", "kids", "types", "dict", "again"]

    def spoil_view(self, c):
        """The caller changes what a view returned; the collection is as before"""
        rng, ks = self.rng, self.colls[c]
        r = rng.randrange(4)
        if r == 0:
            ks[pick(rng, ["RSA", "EC", "oct"])].append("junk")
        elif r == 1:
            d = ks.as_dict()
            for v in d.values():
                v.append("junk")
            d.clear()
        elif r == 2:
            ks.by_kid(pick(rng, KIDS)).append("junk")
        else:
            ks.kids().append("junk")
            ks.key_types().append("junk")
        self.emit({"op": "spoil", "c": c}, {"what": "view changed"})

    def assign(self):
        if not self.hold:
            return
        rng, k = self.rng, pick(self.rng, self.hold)
        if id(k) not in self.ids:
            return
        attr, val = pick(rng, ["kid", "kid", "use", "alg"]), pick(rng, ["", "k1", "k2", "sig"])
        setattr(k, attr, val)
        self.rec.emit({"op": "set", "obj": self.ids[id(k)], "attr": attr, "val": val}, {"what": "set"})

    # -- scenarios

    def steps(self, prop, behs, lists):
        for b in behs or []:
            yield lambda b=b: self.behaviour(b, lists)
        while True:
            yield weighted(self.rng, [(self.history, 8), (self.odd, 1)])

    def odd(self):
        """Documents that may be refused or taken in, but not passed over"""
        rng = self.rng
        self.reset()
        self.oddities = True
        self.new("a")
        for _ in range(rng.randrange(2, 6)):
            ts = [self.template(good=rng.random() < .95) for _ in range(rng.randrange(1, 5))]
            for j in rng.sample(range(len(ts)), rng.randrange(1, len(ts) + 1)):
                d, it = ts[j]
                ts[j] = (self.oddity(d), dict(it, odd=True, good=True))
            how = pick(rng, ["dict", "jwks", "url", "add"])
            self.add("a", how, ts[:1] if how == "add" else ts)
            for w in rng.sample(["iter", "list", "keys", "len"], 2):
                self.view("a", w)

    def oddity(self, d):
        rng, d = self.rng, dict(d)
        for _ in range(rng.randrange(1, 4)):
            ms = [k for k in d if k in ("n", "e", "d", "x", "y", "k", "crv", "v", "p", "q")]
            r = rng.randrange(6)
            k = pick(rng, ms) if ms else "k"
            if r == 0:
                d[k] = pick(rng, ["", None, 0, [], "A", "=", "AA==", {}, False])
            elif r == 1:
                d.pop(k, None)
            elif r == 2:
                d[k] = pick(rng, ["*", "+/", " "]) + str(d.get(k, ""))
            elif r == 3:
                d["x5c"] = pick(rng, [["AAAA"], [], [""], "AAAA", None])
            elif r == 4:
                d["kty"] = pick(rng, ["", "OKP", "rsa", "RSA ", "ec", "OCT", None, 5])
            else:
                d[pick(rng, ["use", "alg", "kid"])] = pick(rng, ["", None, 5, "enc", "none"])
        return d

    def history(self):
        rng = self.rng
        self.reset()
        cs = ["a", "b"][:rng.randrange(1, 3)]
        for c in cs:
            self.new(c)
        for _ in range(rng.randrange(4, 18)):
            c = pick(rng, cs)
            r = rng.random()
            if r < .16:
                self.add(c, "add", [self.template(good=rng.random() < .8)])
            elif r < .36:
                how = pick(rng, ["dict", "jwks", "jwks", "url"])
                self.add(c, how, [self.template(good=rng.random() < .9) for _ in range(rng.randrange(5))])
            elif r < .46:
                own = [k for ks in self.colls.values() for k in list(ks)]
                self.append(c, pick(rng, own) if own and rng.random() < .5 else None)
            elif r < .55:
                self.wrap(c)
            elif r < .61:
                self.broken(c)
            elif r < .66:
                self.spoil_view(c)
            elif r < .71:
                self.assign()
            else:
                self.view(c, pick(rng, self.VIEWS))
        for c in cs:
            for w in rng.sample(self.VIEWS, 4):
                self.view(c, w)

    def behaviour(self, beh, lists):
        self.reset()
        self.new("a")
        self.new("b")
        for act in beh:
            a, c = act["a"], act["c"]
            if a in ("add", "dict", "jwks"):
                self.add(c, a, [self.template(lists[t - 1]["kty"], lists[t - 1]["kid"], lists[t - 1]["good"]) for t in act["items"]])
            elif a == "append":
                ks = list(self.colls[act["from"]])
                if act["pos"] <= len(ks):
                    self.append(c, ks[act["pos"] - 1])
            else:
                self.view(c, act["what"])
