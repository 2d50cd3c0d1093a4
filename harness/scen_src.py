"""Drives the readers of keys - from files, certificates and a web on the
loopback interface - and records what they do (events for
spec/SrcTrace.tla, C20)."""
import base64
import json
import logging
import os
import random
import shutil
import socket
import tempfile
import warnings

import absjws
import certs
import net
import progs
from certs import integer, name, oid, seq, spki, tlv
from common import POOL, canon, matname, native_rsa, pick, weighted
from drv_jwk import abskey
from progs import EcMat, RsaMat
from scen_keys import FIELDS, SMALL, Scen as KeysScen

from Cryptodome.PublicKey import ECC
from jwkest import jwk
from jwkest.ecc import NISTEllipticCurve
from jwkest.jwk import KEYS, Key, RSAKey

KEYS_RSA = SMALL + ["r2048a", "r2048b"]
ECS = [n for n, m in POOL.items() if isinstance(m, EcMat)]
PLACES = ["p1", "p2", "p3", "p4", "p5"]
FILES = ["f1", "f2", "f3"]
NOKEY = {"pub": "", "priv": False}
PASS = "correct horse"


def pem(label, der, width=64, nl="\n"):
    b = base64.b64encode(der).decode()
    return nl.join(["-----BEGIN %s-----" % label] + [b[i:i + width] for i in range(0, len(b), width)] + ["-----END %s-----" % label])


def own_cert(m):
    """A certificate for 127.0.0.1 that its owner signs"""
    alg, n = seq(oid(certs.OID_SHA256RSA), tlv(5)), name("127.0.0.1")
    ext = seq(seq(oid(certs.OID_BC), tlv(1, b"\xff"), tlv(4, seq(tlv(1, b"\xff")))),
              seq(oid(bytes.fromhex("551d11")), tlv(4, seq(tlv(0x87, bytes([127, 0, 0, 1]))))))
    tbs = seq(tlv(0xa0, integer(2)), integer(77), alg, n, seq(tlv(0x17, b"200101000000Z"), tlv(0x18, b"20600101000000Z")), n, spki(m), tlv(0xa3, ext))
    return seq(tbs, alg, tlv(3, b"\0", progs.rsa15sign(256, m, tbs)))


class Scen(KeysScen):
    def __init__(self, rec, rng, programs):
        absjws.PROG = programs
        self.rec, self.rng = rec, rng
        self.dir = tempfile.mkdtemp(prefix="src", dir=os.path.dirname(os.path.abspath(rec.f.name)))
        m = POOL["r2048a"]
        c = pem("CERTIFICATE", own_cert(m)) + "\n"
        self.ca = self.write("ca.pem", c)
        self.web = net.Site()
        self.tls = net.Site(self.write("tls.pem", c + native_rsa(m).export_key().decode() + "\n"), self.web)
        s = socket.socket()
        s.bind(("127.0.0.1", 0))        # and nobody listens
        self.nobody, self.shut = s, "http://127.0.0.1:%d/" % s.getsockname()[1]
        net.watch()
        logging.disable(logging.WARNING)
        warnings.simplefilter("ignore")
        self.reset()

    def finish(self):
        self.web.close()
        self.tls.close()
        self.nobody.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, f, text):
        p = os.path.join(self.dir, f)
        with open(p, "wb") as h:
            h.write(text if isinstance(text, bytes) else text.encode("utf-8"))
        return p

    def reset(self):
        self.rec.emit({"op": "reset"})
        self.web.pages.clear()
        for f in FILES:
            if os.path.exists(os.path.join(self.dir, f)):
                os.unlink(os.path.join(self.dir, f))
        self.texts, self.kinds, self.cache, self.colls = {}, {}, {}, {}

    # -- what places hold

    def publish(self, place, kind, text, status=200, to="", locked=False, key=None, items=(), info=None):
        rng = self.rng
        if place in FILES:
            self.write(place, text)
        else:
            ctype = pick(rng, ["text/plain; charset=utf-8", "application/json; charset=utf-8", "application/jwk-set+json; charset=UTF-8",
                               "text/html; charset=utf-8", "application/x-pem-file; charset=utf-8"])
            loc = None
            if to:
                loc = pick(rng, ["", "/", self.web.base]) + to      # the last: from a TLS server to one without
            self.web.put(place, text.encode("utf-8"), status, ctype, loc)
        self.texts[place], self.kinds[place] = text, kind
        self.rec.emit({"op": "publish", "place": place, "page": {"kind": kind, "status": status, "to": to, "locked": locked, "key": key or NOKEY,
                                                                "items": list(items)}}, info or {"what": "publish"})

    def key_text(self, m, private, locked):
        """An RSA key as text"""
        rng, k = self.rng, native_rsa(m, private)
        if not private:
            t = k.export_key(pkcs=pick(rng, [1, 8])).decode()
        elif not locked:
            t = k.export_key(pkcs=pick(rng, [1, 8])).decode()
        else:
            t = (k.export_key(passphrase=PASS, pkcs=1) if rng.random() < .4 else
                 k.export_key(passphrase=PASS, pkcs=8, protection="PBKDF2WithHMAC-SHA1AndAES128-CBC",
                              prot_params={"iteration_count": 3})).decode()
        return t + pick(rng, ["", "\n"])

    def material(self):
        return POOL[pick(self.rng, KEYS_RSA)]

    alike = None            # seed of certificates that differ in little but the key

    def cert_text(self, m):
        rng = self.rng if self.alike is None else random.Random(self.alike)
        return pem("CERTIFICATE", certs.cert(rng, m, POOL["r2048a"]), pick(rng, [64, 64, 76, 40]), pick(rng, ["\n", "\n", "\r\n"])) + pick(rng, ["", "\n"])

    def cut(self):
        """A good text, cut short or with something else in it"""
        rng = self.rng
        r = rng.randrange(4)
        if r in (0, 3):
            while True:
                x = json.dumps({"keys": [self.template()[0] for _ in range(rng.randrange(1, 4))]})
                i = rng.choice([len(x), len(x) - rng.randrange(1, 5), len(x) - rng.randrange(1, 5), rng.randrange(len(x)), 0])
                x = x[:i] + pick(rng, ["", "", ",", "]", "}", "]]}", "x", "{", "//", "...", "\0", "null"]) + (x[i:] if rng.random() < .3 else "")
                try:
                    json.loads(x)
                except ValueError:
                    return x
        x = self.cert_text(self.material()) if r == 1 else self.key_text(self.material(), rng.random() < .5, False)
        i, n = x.index("-\n", 3 if "-\r" not in x else 0) + 2 if "-\n" in x[:60] else 0, x.rindex("-----END")
        j = rng.randrange(i, n - 16)
        return x[:j] + x[j + 4 * rng.randrange(2, max(3, (n - j) // 8)):]

    def other_text(self):
        rng, m = self.rng, POOL[pick(self.rng, ECS)]
        if rng.random() < .55:
            return self.cut()
        return pick(rng, [lambda: "", lambda: "nothing here", lambda: '{"kid":"k1"}', lambda: "[]", lambda: '{"keys":7}', lambda: "{",
                          lambda: '"keys"', lambda: pem("CERTIFICATE", certs.cert(rng, m, POOL["r2048a"])),
                          lambda: ECC.construct(curve=m.crv, point_x=m.x, point_y=m.y).export_key(format="PEM"),
                          lambda: pem("CERTIFICATE", os.urandom(0) + bytes(rng.getrandbits(8) for _ in range(90))),
                          lambda: pem("RSA PRIVATE KEY", seq(integer(0), integer(5))),
                          lambda: "-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----"])()

    def fill(self, place, kind=None, status=None):
        """Something new for a place"""
        rng = self.rng
        web = place in PLACES
        kind = kind or weighted(rng, [("key", 3), ("cert", 4), ("chain", 2), ("other", 4)] + ([("jwks", 6), ("move", 3)] if web else []))
        if kind == "move" and place == PLACES[-1]:
            kind = "jwks"
        status = status or (weighted(rng, [(200, 6), (404, 1), (500, 1), (203, .3), (403, .3)]) if web else 200)
        if kind == "key":
            m, private = self.material(), rng.random() < .6
            locked = private and rng.random() < .4
            self.publish(place, "key", self.key_text(m, private, locked), status, locked=locked, key={"pub": matname(m), "priv": private})
        elif kind == "cert":
            m = self.material()
            self.publish(place, "cert", self.cert_text(m), status, key={"pub": matname(m), "priv": False})
        elif kind == "chain":
            m = self.material()
            t = [self.cert_text(x).rstrip("\r\n") for x in [m] + [self.material() for _ in range(rng.randrange(1, 4))]]
            self.publish(place, "chain", "\n".join(t) + pick(rng, ["", "\n"]), status, key={"pub": matname(m), "priv": False})
        elif kind == "jwks":
            t = [self.template(good=rng.random() < .92) for _ in range(rng.randrange(5))]
            d = {"keys": [x[0] for x in t]}
            if rng.random() < .2:
                d["x"] = 1
            self.publish(place, "jwks", json.dumps(d, ensure_ascii=rng.random() < .5), status, items=[x[1] for x in t], info={"docs": d})
        elif kind == "move":
            to = pick(rng, PLACES[PLACES.index(place) + 1:])
            self.publish(place, "move", pick(rng, ["", "moved", self.texts.get(to, "")]), pick(rng, [301, 302, 303, 307, 308]), to=to)
        else:
            self.publish(place, "other", self.other_text(), status)

    # -- readers

    def url(self, place, tls, closed):
        return (self.shut if closed else self.tls.base if tls else self.web.base) + place

    def how(self):
        """Server, and what the caller says about certificates"""
        rng = self.rng
        tls = rng.random() < .3
        closed = rng.random() < .04
        verify = weighted(rng, [("default", 2), ("off", 1.5), ("ca", 1.5)]) if tls else weighted(rng, [("default", 4), ("off", 1)])
        v = {"default": pick(rng, [None, True]), "off": False, "ca": self.ca}[verify]
        return tls, closed, verify, v

    def hits(self):
        return self.web.taken()

    def shown(self, k):
        if isinstance(k, RSAKey):
            r, native = abskey(k)
            return {"pub": r["pub"] if native else "?", "priv": bool(r["priv"])}
        d = k.has_private()
        m = RsaMat(int(k.n), int(k.e))
        good = not d or POOL[matname(m)].d == int(k.d)
        return {"pub": matname(m) if good else "?", "priv": bool(d)}

    READERS = ["import_rsa_key", "import_rsa_key_from_file", "rsa_load", "x509_rsa_load", "RSAKey.load", "pem_cert2rsa", "der_cert2rsa"]

    def read(self, reader, place, how=None, cache=None, held=None):
        """held: the RSAKey object that loads"""
        rng = self.rng
        tls, closed, verify, v = how or ((False, False, "default", None) if place in FILES else self.how())
        phrase = weighted(rng, [("none", 2), ("right", 2), ("wrong", 1)]) if self.kinds.get(place) == "key" and rng.random() < .7 else "none"
        p = {"none": None, "right": PASS, "wrong": "wrong"}[phrase]
        path, text = os.path.join(self.dir, place), self.texts.get(place, "")
        cache = self.cache if cache is None else cache
        if reader not in ("import_rsa_key", "import_rsa_key_from_file"):
            phrase = "none"

        def f():
            if reader == "import_rsa_key":
                t = text if rng.random() < .6 else text.encode()
                return jwk.import_rsa_key(t, p) if p else jwk.import_rsa_key(t)
            if reader == "import_rsa_key_from_file":
                return jwk.import_rsa_key_from_file(path, passphrase=p) if p else jwk.import_rsa_key_from_file(path)
            if reader == "rsa_load":
                return jwk.rsa_load(path)
            if reader == "x509_rsa_load":
                r = jwk.x509_rsa_load(text)
                return r[0][1] if len(r) == 1 and r[0][0] == "rsa" else None
            if reader == "RSAKey.load":
                k = held or RSAKey(**({"kid": "k1"} if rng.random() < .5 else {}))
                r = k.load(path)
                return k if r is k else None
            if reader == "pem_cert2rsa":
                return jwk.pem_cert2rsa(path)
            if reader == "der_cert2rsa":
                b = "".join(text.split("-----")[2].split()) if text.count("-----") == 4 else text
                return jwk.der_cert2rsa(pick(rng, [b, "\n".join(b[i:i + 64] for i in range(0, len(b), 64)), " " + b + "\n"]))
            kw = {} if v is None else {"verify": v}
            r = jwk.load_x509_cert(self.url(place, tls, closed), cache, **kw)
            if r == []:
                raise LookupError("no key")
            return r[0][1] if len(r) == 1 and r[0][0] == "rsa" else None
        self.hits()
        r, err = self.attempt(f)
        out = err or {"kind": "ok", "key": self.shown(r) if r is not None else {"pub": "?", "priv": False}}
        self.rec.emit({"op": "read", "reader": reader, "place": place, "pass": phrase, "tls": tls, "verify": verify, "closed": closed, "out": out,
                       "hits": self.hits()}, {"what": reader, "text": text[:400], "pass": phrase, "verify": repr(v)})
        return r

    def new(self, c):
        self.colls[c] = KEYS()
        self.rec.emit({"op": "new", "c": c})

    def records(self, ks):
        return [{f: abskey(k)[0][f] for f in FIELDS} if type(k) is not Key else self.foreign(k) for k in ks]

    def load(self, c, place, fn=None, how=None):
        rng = self.rng
        tls, closed, verify, v = how or self.how()
        fn = fn or weighted(rng, [("coll", 3), ("list", 1)])
        url = self.url(place, tls, closed)
        ks = self.colls[c]

        def f():
            if fn == "coll":
                r = ks.load_from_url(url) if v is None else ks.load_from_url(url, verify=v)
                return ks if r is ks else []
            return jwk.load_jwks_from_url(url) if v is None else jwk.load_jwks_from_url(url, v) if rng.random() < .5 else \
                jwk.load_jwks_from_url(url, verify=v)
        self.hits()
        old = self.records(ks)
        r, err = self.attempt(f)
        now = self.records(ks) if fn == "coll" else old + (self.records(r) if not err else [])
        if fn == "list" and self.records(ks) != old:
            now = []
        self.rec.emit({"op": "load", "c": c, "fn": fn, "place": place, "tls": tls, "verify": verify, "closed": closed, "out": err or {"kind": "ok"},
                       "now": now, "hits": self.hits()}, {"what": "load " + fn, "text": self.texts.get(place, "")[:600], "verify": repr(v)})

    # -- native keys

    def native(self):
        """(key, what it is)"""
        rng = self.rng
        r = rng.random()
        if r < .65:
            m = POOL[pick(rng, KEYS_RSA)]
            if rng.random() < .3:       # the same modulus, another exponent
                m = RsaMat(m.n, pick(rng, [3, 17, 65537, 257]))
            return native_rsa(m, rng.random() < .5), {"t": "rsa", "v": "%x/%x" % (m.n, m.e)}
        if r < .85:
            s = pick(rng, ["", "a", "b", "\u00e9", "ab"])
            return s, {"t": "str", "v": s}
        return pick(rng, [(b"a", {"t": "bytes", "v": "a"}), (5, {"t": "int", "v": "5"}), (None, {"t": "none", "v": ""})])

    def eq(self):
        rng = self.rng
        a, x = self.native()
        b, y = self.native()
        if x["t"] == "rsa" and rng.random() < .4:
            n, e = (int(t, 16) for t in x["v"].split("/"))
            b, y = native_rsa(RsaMat(n, e), False), x
        if x["t"] in ("bytes", "int", "none") and y["t"] == x["t"]:
            return
        f = "rsa_eq" if x["t"] == y["t"] == "rsa" and rng.random() < .4 else "key_eq"
        r, err = self.attempt(lambda: getattr(jwk, f)(a, b))
        self.rec.emit({"op": "eq", "a": x, "b": y, "out": err or {"kind": "ok", "eq": bool(r)}}, {"what": f, "a": x, "b": y})

    def wrap(self):
        """Native keys by type as key objects"""
        rng, d, want, keep = self.rng, {}, [], []
        for t in rng.sample(["RSA", "rsa", "oct", "EC"], rng.randrange(1, 4)):
            d[t] = []
            for _ in range(rng.randrange(3)):
                if t.upper() == "RSA":
                    m, private = self.material(), rng.random() < .5
                    d[t].append(native_rsa(m, private))
                    want.append({"kty": "RSA", "pub": matname(m), "priv": private})
                elif t == "oct":
                    m = pick(rng, [b"secret", "\u00e9" * 9, "x" * 40])
                    d[t].append(m)
                    want.append({"kty": "oct", "pub": matname(m if isinstance(m, bytes) else m.encode()), "priv": True})
                else:
                    m = POOL[pick(rng, ECS)]
                    c = NISTEllipticCurve.by_name(m.crv)
                    c.key_pair = lambda m=m: (m.d, (m.x, m.y))
                    d[t].append(c)
                    want.append({"kty": "EC", "pub": matname(m), "priv": True})
        r, err = self.attempt(lambda: jwk.keyitems2keyreps(d))
        out = err or {"kind": "ok", "keys": [{f: abskey(k)[0][f] for f in ("kty", "pub", "priv")} for k in r]}
        self.rec.emit({"op": "wrap", "items": want, "out": out}, {"what": "keyitems2keyreps", "items": want})

    # -- scenarios

    def steps(self, prop, behs, lists):
        for b in behs or []:
            yield lambda b=b: self.behaviour(b, lists)
        while True:
            yield weighted(self.rng, [(self.files, 3), (self.visits, 5), (self.changing, 2), (self.twins, 1), (self.renewed, 1), (self.natives, 1)])

    def files(self):
        rng = self.rng
        self.reset()
        for f in FILES:
            if rng.random() < .9:
                self.fill(f)
        held = RSAKey()
        for _ in range(rng.randrange(4, 12)):
            f = pick(rng, FILES)
            r = rng.random()
            if r < .2:
                self.fill(f)
            else:
                reader = pick(rng, self.READERS)
                self.read(reader, f, held=held if rng.random() < .5 else None)

    def visits(self):
        rng = self.rng
        self.reset()
        self.alike = rng.random() if rng.random() < .4 else None
        try:
            self.visit({} if rng.random() < .4 else None)
        finally:
            self.alike = None

    def visit(self, cache):
        rng = self.rng
        cs = ["a", "b"][:rng.randrange(1, 3)]
        for c in cs:
            self.new(c)
        for p in PLACES:
            if rng.random() < .8:
                self.fill(p)
        for _ in range(rng.randrange(4, 14)):
            r = rng.random()
            p = pick(rng, PLACES)
            if r < .2:
                self.fill(p)
            elif r < .65:
                self.load(pick(rng, cs), p)
            else:
                self.read("load_x509_cert", p, cache=cache if cache is not None else {} if rng.random() < .3 else None)

    def changing(self):
        """One place, again and again"""
        rng = self.rng
        self.reset()
        self.new("a")
        p = pick(rng, PLACES[:4])
        q = pick(rng, PLACES[PLACES.index(p) + 1:])
        kind = pick(rng, ["cert", "cert", "chain", "jwks", "jwks"])
        if rng.random() < .4:
            self.publish(p, "move", "", pick(rng, [301, 302, 307, 308]), to=q)
        else:
            q = p
        for _ in range(rng.randrange(3, 7)):
            self.fill(q, kind if rng.random() < .8 else None, 200 if rng.random() < .8 else None)
            how = (False, False, "default", None) if rng.random() < .5 else None
            for _ in range(rng.randrange(1, 3)):
                if kind == "jwks":
                    self.load("a", p, how=how)
                else:
                    self.read("load_x509_cert", p, how=how)

    def renewed(self):
        """A file, its key replaced by another of the same size at the same
        time"""
        rng = self.rng
        self.reset()
        f, reader = pick(rng, FILES), pick(rng, ["import_rsa_key_from_file", "rsa_load", "rsa_load", "RSAKey.load", "pem_cert2rsa"])
        pkcs, private, held = pick(rng, [1, 8]), rng.random() < .5, RSAKey()
        for n in rng.sample(["r1024a", "r1024b", "r1024c"] * 2, rng.randrange(2, 5)):
            m = POOL[n]
            if reader == "pem_cert2rsa":
                self.publish(f, "cert", pem("CERTIFICATE", certs.cert(random.Random(5), m, POOL["r2048a"])) + "\n", key={"pub": n, "priv": False})
            else:
                self.publish(f, "key", native_rsa(m, private).export_key(pkcs=pkcs).decode() + "\n", key={"pub": n, "priv": private})
            os.utime(os.path.join(self.dir, f), (1e9, 1e9))
            for _ in range(rng.randrange(1, 3)):
                self.read(reader, f, held=held if rng.random() < .5 else None)

    def twins(self):
        """Certificates of one issuer, one after the other and with one
        dictionary of what was read before"""
        rng = self.rng
        self.reset()
        self.alike = rng.random()
        cache = {}
        try:
            n = POOL[pick(rng, KEYS_RSA)].n.bit_length()
            ms = [POOL[k] for k in KEYS_RSA if POOL[k].n.bit_length() == n]
            ps = rng.sample(PLACES, min(len(PLACES), 3))
            for p in ps:
                m = pick(rng, ms)
                self.publish(p, "cert", self.cert_text(m), 200, key={"pub": matname(m), "priv": False})
            for p in ps + rng.sample(ps, 2):
                self.read("load_x509_cert", p, cache=cache)
        finally:
            self.alike = None

    def natives(self):
        self.reset()
        for _ in range(6):
            self.eq()
        self.wrap()

    PUB = {"A": "r1024a", "B": "r2048b"}

    def behaviour(self, beh, lists):
        """A behaviour of SrcSys"""
        self.reset()
        self.new("a")
        self.new("b")
        for act in beh:
            p = act["place"]
            if act["a"] == "publish":
                g = lists[act["page"] - 1]
                if g["kind"] == "jwks":
                    t = [self.template(x["key"]["mat"], x["key"]["kid"], x["good"]) for x in g["items"]]
                    self.publish(p, "jwks", json.dumps({"keys": [x[0] for x in t]}), g["status"], items=[x[1] for x in t])
                elif g["kind"] == "cert":
                    m = POOL[self.PUB[g["key"]["pub"]]]
                    self.publish(p, "cert", self.cert_text(m), g["status"], key={"pub": matname(m), "priv": False})
                else:
                    self.publish(p, g["kind"], "" if g["kind"] == "move" else self.other_text(), g["status"], to=g["to"])
            elif act["a"] == "load":
                self.load(act["c"], p, fn="coll")
            else:
                self.read("load_x509_cert", p)
