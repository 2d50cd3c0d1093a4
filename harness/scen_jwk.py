"""Scenarios for jwkest.jwk (C11 - C13, C15)."""
import hashlib
import os

import absjws
import certs
import net
import progs
from common import POOL, fresh, jwk_of, kty_of, matname, pick, u, weighted
from drv_jwk import Drv, O
from drv_jws import EC, OCT
from progs import EcMat, RsaMat

RSAS = [n for n in POOL if n.startswith("r")]
SMALL = ["r512", "r768", "r1024a", "r1024b", "r1024c", "r1024e3", "r1031"]
CURVES = ["P-256", "P-384", "P-521"]
KIDS = ["", "", "k1", "k2", "\u00e9", "a b", "1"]
USES = ["ver", "tls", "SIG", "Enc", "x", "none", "sig enc", "\u00e9"]
BADCHARS = ["+", "/", " ", "\n", ".", "*", "\t", ":", "\u00e9", "\0", "!", "~", "@"]


class Scen(object):
    def __init__(self, rec, rng, programs):
        absjws.PROG = programs
        self.rng = rng
        self.d = Drv(rec, rng)
        self.shown = []

    def finish(self):
        self.d.finish()

    def steps(self, prop, behs, lists):
        kinds = {"C11": [(self.history, 5), (self.trip, 5), (self.malformed, 3), (self.fresh_material, 3)],
                 "C12": [(self.history, 4), (self.outgoing, 5)],
                 "C13": [(self.history, 5), (self.alike, 5), (self.fresh_material, 2)],
                 "C15": [(self.certificate, 1)]}
        ks = kinds.get(prop, [(self.history, 4), (self.trip, 2), (self.malformed, 1), (self.alike, 2), (self.outgoing, 2), (self.certificate, 1)])
        if behs:
            import replay_jwk
            r = replay_jwk.Replay(self)
            for b in behs:
                yield lambda b=b: r.run(b)
        while True:
            yield weighted(self.rng, ks)

    # -- material

    def mat(self, kty=None):
        rng = self.rng
        kty = kty or pick(rng, ["RSA", "EC", "oct"])
        if kty == "RSA":
            return POOL[pick(rng, RSAS if rng.random() < .2 else SMALL) if rng.random() < .95 else fresh(rng, "RSA")]
        if kty == "EC":
            crv = pick(rng, CURVES)
            return POOL[pick(rng, EC[crv]) if rng.random() < .6 else fresh(rng, "EC", crv)]
        return POOL[pick(rng, OCT) if rng.random() < .5 else fresh(rng, "oct")]

    def new_mat(self):
        """Material nobody has seen: EC keys and secrets with unusual octets"""
        rng = self.rng
        r = rng.random()
        if r < .5:
            crv = pick(rng, CURVES)
            n = progs.ORDER[crv]
            d = rng.choice([rng.randrange(1, n), rng.randrange(1, 1 << rng.randrange(1, n.bit_length())) % n or 1, n - 1, n - 2, 1, n // 2,
                            (rng.getrandbits(n.bit_length()) & ~0xff) % n or 1])
            q = progs.ec_point(crv, *progs.GEN[crv]) * d
            m = EcMat(crv, int(q.x), int(q.y), d)
        else:
            ln = rng.choice([1, 2, 3, 8, 16, 20, 32, 47, 48, 64, 100, 257])
            m = rng.choice([bytes(rng.randrange(256) for _ in range(ln)), b"\0" * ln, b"\xff" * ln, b"\xfb\xef\xbe" * ln,
                            bytes(rng.choice([0x20, 0x0a, 0x3d, 0x2b]) for _ in range(ln))])
        matname(m)
        return m

    def attrs(self):
        rng = self.rng
        return {"kid": pick(rng, KIDS), "use": pick(rng, ["", "", "sig", "enc", "sig", "enc", pick(rng, USES)]), "alg": pick(rng, ["", "", "", "RS256", "ES256", "HS256", "A128KW", "ECDH-ES"])}

    def x5(self):
        rng = self.rng
        r = {}
        if rng.random() < .5:
            r["x5u"] = net.home().base + pick(rng, ["a", "b"])
        if rng.random() < .5:
            r["x5t"] = pick(rng, ["AAAA", "AAAB"])
        if rng.random() < .3:
            r["x5c"] = pick(rng, [["MIIB"], ["MIIC"], ["MIIB", "MIIC"]])
        return r

    def routes(self, m):
        rs = Drv.ROUTES * 2 + ([] if isinstance(m, bytes) else ["late"])
        if isinstance(m, RsaMat):
            rs = rs + ["native", "load", "file", "wrap", "wrapadd", "dictfn"]
        elif isinstance(m, bytes):
            rs = rs + ["key", "dictfn"]
            try:
                if m and m.decode().encode() == m:
                    rs += ["keytext", "wrap", "wrapadd"]
            except UnicodeDecodeError:
                pass
        else:
            rs = rs + ["ints", "dictfn"]
        return rs

    def key(self, m=None, private=None, **at):
        rng = self.rng
        m = self.mat() if m is None else m
        if private is None:
            private = rng.random() < .7
        if isinstance(m, bytes):
            private = True
        elif m.d is None:
            private = False
        route = pick(rng, self.routes(m))
        return self.d.import_(m, private, route, pick(rng, ["full", "full", "d", "crt"]),
                              self.x5() if rng.random() < .15 else None, **(at or (self.attrs() if rng.random() < .6 else {})))

    def load(self, o, m=None):
        """Other material into a key object"""
        rng = self.rng
        if isinstance(o.m, RsaMat):
            self.d.load(o, m or POOL[pick(rng, SMALL)], rng.random() < .5)
        elif isinstance(o.m, EcMat):
            m = m or POOL[pick(rng, EC[pick(rng, CURVES)])]
            if m.d:
                self.d.load(o, m, True)

    # -- scenarios

    def trip(self):
        self.d.reset()
        o = self.key()
        for _ in range(self.rng.randrange(1, 4)):
            if o is None:
                return
            private = self.rng.random() < .6
            self.d.export(o, private)
            n = self.d.again(o, private)
            if n and self.rng.random() < .4:
                self.d.eq(o, n)
            if n and self.rng.random() < .5:
                pair = [o, n]
                self.rng.shuffle(pair)
                self.d.cross(*pair)
            o = n

    def fresh_material(self):
        self.d.reset()
        o = self.key(self.new_mat()) if self.rng.random() < .8 else self.d.generate(pick(self.rng, CURVES))
        if not o:
            return
        self.d.tp(o)
        self.d.export(o, True)
        n = self.d.again(o, True)
        if n:
            self.d.eq(o, n)
            self.d.cross(o, n)
            self.d.hash(o)
            self.d.hash(n)
        self.d.export(o, False)

    def history(self):
        d, rng = self.d, self.rng
        d.reset()
        objs = []
        twins = [self.mat() for _ in range(2)]
        for _ in range(rng.randrange(6, 26)):
            r = rng.random()
            if len(objs) < 2 or (r < .15 and len(objs) < 6):
                o = self.key(pick(rng, twins)) if rng.random() < .9 else d.generate(pick(rng, CURVES))
                if o:
                    objs.append(o)
                continue
            o, b = pick(rng, objs), pick(rng, objs)
            if r < .25:
                d.export(o, rng.random() < .5)
            elif r < .32:
                n = d.again(o, rng.random() < .6)
                if n:
                    objs.append(n)
            elif r < .40:
                if not isinstance(o.m, bytes):
                    n = d.copy(o)
                    if n:
                        objs.append(n)
            elif r < .52:
                d.eq(o, b)
            elif r < .62:
                d.hash(o)
            elif r < .67:
                d.tp(o)
            elif r < .70:
                d.addkid(o)
            elif r < .77:
                d.set(o, pick(rng, ["kid", "use", "alg"]), pick(rng, ["", "k1", "sig", "enc", "RS256", "ES256"]))
            elif r < .81:
                self.load(o)
            elif r < .88:
                d.use(o)
            elif r < .93:
                d.cross(o, b)
            else:
                self.one_public(objs)

    def one_public(self, objs):
        d, rng = self.d, self.rng
        how = pick(rng, ["dump", "jwsjwk", "jwejwk", "epk"])
        asym = [o for o in objs if not isinstance(o.m, bytes)]
        if how == "dump":
            d.public([pick(rng, objs) for _ in range(rng.randrange(1, 4))], how)
        elif how == "epk":
            es = [o for o in asym if isinstance(o.m, EcMat) and o.private]
            if es:
                d.public([pick(rng, es)], how)
        elif asym:
            d.public([pick(rng, asym)], how)

    def outgoing(self):
        d, rng = self.d, self.rng
        d.reset()
        m = self.mat(pick(rng, ["RSA", "EC"]))
        o = self.key(m, True)
        if not o:
            return
        objs = [o]
        for _ in range(rng.randrange(2, 9)):
            o = pick(rng, objs)
            r = rng.randrange(9)
            if r == 0:
                d.export(o, True)
            elif r == 1:
                d.export(o, False)
            elif r == 2:
                n = d.copy(o)
                if n:
                    objs.append(n)
            elif r == 3:
                d.use(o)
            elif r == 4:
                n = d.again(o, rng.random() < .5)
                if n:
                    objs.append(n)
            elif r == 5:
                self.load(o)
            elif r == 6:
                d.cross(o, pick(rng, objs))
            else:
                self.one_public(objs)
        for o in objs:
            d.export(o, False)

    def alike(self):
        """Keys that differ in one thing or in nothing"""
        d, rng = self.d, self.rng
        d.reset()
        m = self.mat() if rng.random() < .8 else self.new_mat()
        at, xs = self.attrs(), self.x5() if rng.random() < .4 else None
        objs = [self.d.import_(m, rng.random() < .5 or isinstance(m, bytes), pick(rng, self.routes(m)), "full", xs, **at)]
        for _ in range(rng.randrange(2, 5)):
            m2, at2, x5 = m, dict(at), xs
            r = rng.randrange(7)
            if r == 0:
                m2 = self.near(m)
            elif r == 1:
                a = pick(rng, ["kid", "use", "alg"])
                at2[a] = pick(rng, ["", "k1", "K1", "sig", "enc", "RS256"])
            elif r == 2:
                x5 = dict(xs or {}, **self.x5())
                if rng.random() < .3 and x5:
                    del x5[pick(rng, sorted(x5))]
            o = d.import_(m2, isinstance(m2, bytes) or (m2.d is not None and rng.random() < .5), pick(rng, self.routes(m2)),
                          pick(rng, ["full", "d", "crt"]), x5, **at2)
            objs.append(o)
        objs = [o for o in objs if o]
        for _ in range(10):
            a, b = pick(rng, objs), pick(rng, objs) if rng.random() < .95 else pick(rng, [None, "k1", 1, {}, []])
            d.eq(a, b)
            d.hash(a)
            if isinstance(b, O):
                d.hash(b)
            r = rng.random()
            if r < .1:
                d.addkid(a)
            elif r < .2:
                d.set(a, pick(rng, ["kid", "use", "alg"]), pick(rng, ["", "k1", "sig"]))
            elif r < .3:
                d.tp(a)
            elif r < .4:
                self.load(a, m if rng.random() < .5 and m.__class__ is a.m.__class__ else None)

    def near(self, m):
        """Other material that is as like it as possible"""
        rng = self.rng
        if isinstance(m, bytes):
            m2 = rng.choice([m + b"\0", b"\0" + m, m[:-1] or b"y", m[:-1] + bytes([m[-1] ^ 1]), m + m])
        elif isinstance(m, RsaMat):
            m2 = rng.choice([RsaMat(m.n, 3 if m.e != 3 else 17), RsaMat(m.n, m.e + 2)])
        else:
            m2 = EcMat(m.crv, m.x, progs.PRIME[m.crv] - m.y, progs.ORDER[m.crv] - m.d if m.d else None)
        matname(m2)
        return m2

    def malformed(self):
        self.d.reset()
        for _ in range(8):
            self.malform()

    def malform(self):
        d, rng = self.d, self.rng
        m = self.mat()
        doc = jwk_of(m, True, **self.attrs())
        if isinstance(m, RsaMat) and rng.random() < .3:
            from drv_jwk import full_private
            doc.update({k: u(progs.i2b(v)) for k, v in full_private(m).items()})
        members = [k for k in doc if k in ("n", "e", "d", "p", "q", "dp", "dq", "qi", "x", "y", "k")]
        t = pick(rng, members)
        v = doc[t]
        r = rng.randrange(8)
        if isinstance(m, EcMat) and rng.random() < .2:
            r = 5
        if r < 4:
            i = rng.choice([0, len(v), rng.randrange(len(v) + 1)])
            c = pick(rng, BADCHARS)
            v = v[:i] + c + v[i + rng.randrange(2):]
            if c not in v:
                return
            doc[t] = v
            d.bad_import(m, doc, "bad", "character %r in %s" % (c, t))
        elif r == 4:
            v = v[:len(v) - len(v) % 4] + "A"           # impossible length
            doc[t] = v
            d.bad_import(m, doc, "bad", "length of %s" % t)
        elif r == 5:
            if isinstance(m, EcMat):
                doc["crv"] = pick(rng, ["P-192", "P-224", "p-256", "P256", "P-255", "P-256 ", " P-256", "secp256k1", "Ed25519", "P-384\0", "P-521x", "256"])
                if rng.random() < .5:       # nearly its own
                    i, c = rng.choice([0, 0, 1, 2, 3, 4]), rng.choice("PPXKp-_.:2345681 ")
                    doc["crv"] = pick(rng, [m.crv[:i] + c + m.crv[i + 1:], m.crv[:i] + c + m.crv[i:], m.crv[:i] + m.crv[i + 1:], m.crv + c])
                    if doc["crv"] in CURVES:
                        return
                d.bad_import(m, doc, "bad", "curve")
        elif r == 6:
            doc[t] = pick(rng, [v + "=", v + "==", "", None, 5, [], v + "A" * 3])
            d.bad_import(m, doc, "odd", "odd value of %s" % t)
        else:
            del doc[t]
            d.bad_import(m, doc, "odd", "no %s" % t)

    def certificate(self):
        d, rng = self.d, self.rng
        d.reset()
        m = POOL[pick(rng, SMALL + ["r2048a", "r1040"])]
        ca = POOL[pick(rng, ["r1024a", "r1024b"])]
        der = certs.cert(rng, m, ca)
        others = [certs.cert(rng, POOL[pick(rng, SMALL)], ca) for _ in range(rng.randrange(3))]
        if self.shown and rng.random() < .35:       # one that was read in before
            der, m = pick(rng, self.shown)
        self.shown = self.shown[-5:] + [(der, m)]
        chain, pub, what = [der] + others, matname(m), "chain"
        r = rng.randrange(8)
        if r == 0:
            em = POOL[pick(rng, EC[pick(rng, CURVES)])]
            der = certs.cert(rng, em, ca)
            chain, pub, what = [der] + others, "", "EC certificate"
        elif r == 1:
            der = rng.choice([b"", b"\x30\x00", der[:len(der) // 2], os.urandom(40), der[1:]])
            chain, pub, what = [der] + others, "", "no certificate"
        own = hashlib.sha1(der).digest()
        rel = pick(rng, ["none", "none", "match", "match", "match", "other", "other", "malformed", "odd"])
        x5t = None
        if rel == "match":
            x5t = u(own)
        elif rel == "other":
            o = certs.cert(rng, m, ca)
            bit = rng.randrange(160)
            t, i = u(own), rng.randrange(26)
            near = [progs.b64loose(x.encode()) for x in (t.swapcase(), t.lower(), t.upper(), t[:i] + t[i].swapcase() + t[i + 1:], t[1:] + t[:1], t.replace(t[i], t[i - 1]))]
            x5t = u(rng.choice([x for x in [hashlib.sha1(o).digest(), hashlib.sha256(der).digest(), own[:-1], own + b"\0", own[::-1], own[:10],
                                hashlib.sha1(certs.x5c(der).encode()).digest(), bytes(20), hashlib.sha256(der).digest()[:20],
                                (int.from_bytes(own, "big") ^ (1 << bit)).to_bytes(20, "big"),
                                hashlib.sha1(others[0]).digest() if others else b"x"] + near if x != own]))
        elif rel == "malformed":
            t = u(own)
            i = rng.randrange(len(t) + 1)
            x5t = rng.choice([t[:i] + pick(rng, ["+", "/", " ", "\n", ":", "."]) + t[i:], t + "AAAAAA", own.hex(), ":".join("%02X" % b for b in own),
                              t[:-2], t + "\n"])
        elif rel == "odd":
            x5t = rng.choice([u(own) + "=", ""])
            if x5t == "":
                rel = "none"
        d.x5(chain, pub, x5t, rel, what)
