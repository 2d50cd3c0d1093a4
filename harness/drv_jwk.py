"""Drives jwkest.jwk and records what it does (events for spec/JwkTrace.tla)."""
import base64
import hashlib
import json
import os
import shutil
import tempfile

import absjws
import certs
import net
import progs
from common import POOL, build, canon, crv_of, jwk_of, kty_of, matid, matname, name, native_rsa, pick, size_of, u
from progs import EcMat, RsaMat

from Cryptodome.PublicKey import RSA
from jwkest import jwk
from jwkest.ecc import NISTEllipticCurve
from jwkest.jwe import JWE, JWE_EC
from jwkest.jwk import ECKey, Key, KEYS, RSAKey, SYMKey, key_from_jwk_dict, keyrep, make_public_copy
from jwkest.jws import JWS

CLS = {"RSA": RSAKey, "EC": ECKey, "oct": SYMKey}
ATTRS = ("kid", "use", "alg")


def full_private(m):
    """All private members of an RSA key"""
    return {"d": m.d, "p": m.p, "q": m.q, "dp": m.d % (m.p - 1), "dq": m.d % (m.q - 1), "qi": pow(m.q, -1, m.p)}


def forms(m):
    """The texts of all members of the material, by the format programs"""
    P = absjws.PROG
    if isinstance(m, bytes):
        return {"k": progs.run(P.oct_member, {"k": m})["out"].decode()}
    if isinstance(m, RsaMat):
        v = dict(full_private(m) if m.d else {}, n=m.n, e=m.e)
        return {k: progs.run(P.rsa_member, {"x": x})["out"].decode() for k, x in v.items()}
    return {k: progs.run(P.ec_member[m.crv], {"x": x})["out"].decode() for k, x in (("x", m.x), ("y", m.y), ("d", m.d)) if x is not None}


def thumb(m, bits):
    P = absjws.PROG
    if isinstance(m, bytes):
        t = progs.run(P.tp["oct|%d" % bits], {"k": m})["tp"]
        return t, t
    if isinstance(m, RsaMat):
        t = progs.run(P.tp["RSA|%d" % bits], {"n": m.n, "e": m.e})["tp"]
        return t, t
    c = "%s|%d" % (m.crv, bits)
    env = {"x": m.x, "y": m.y}
    return progs.run(P.tp["EC|" + c], env)["tp"], progs.run(P.tp_nokty["EC|" + c], env)["tp"]


def secrets_of(m):
    """The private values of the material that can be recognised"""
    if isinstance(m, bytes) or m.d is None:
        return []
    vs = list(full_private(m).values()) if isinstance(m, RsaMat) else [m.d]
    return [v for v in vs if v.bit_length() >= 64]


def b64s(b):
    """Base64 cores of b at the three alignments"""
    out = []
    for k in range(3):
        t = base64.urlsafe_b64encode(b"\0" * k + b).decode().rstrip("=")
        out.append(t[4 if k else 0:-2])
    return out


def find(text, mats):
    """Names of the materials whose private values occur in the text"""
    t = text.replace("+", "-").replace("/", "_")
    hit = []
    for m in mats:
        for v in secrets_of(m):
            b = progs.i2b(v)
            w = [str(v), "%x" % v, b.hex()] + b64s(b)
            if any(x in t or x.upper() in t for x in w):
                hit.append(matname(m))
                break
    return hit


def walk(o, seen, out, depth=0):
    """Numbers, texts and octets that hang on an object"""
    if depth > 8 or id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, (str, bool)) or o is None:
        out.append(str(o))
    elif isinstance(o, (bytes, bytearray)):
        out.append(bytes(o).hex())
        out.append(bytes(o).decode("latin1"))
    elif isinstance(o, int):
        out.append(str(o))
    elif isinstance(o, dict):
        for k, v in list(o.items()):
            walk(k, seen, out, depth + 1)
            walk(v, seen, out, depth + 1)
    elif isinstance(o, (list, tuple, set)):
        for v in list(o):
            walk(v, seen, out, depth + 1)
    elif type(o).__name__ in ("IntegerGMP", "IntegerNative", "IntegerCustom", "Integer"):
        out.append(str(int(o)))
    elif hasattr(o, "__dict__") and not isinstance(o, type) and not callable(o):
        walk(vars(o), seen, out, depth + 1)


def text_attr(v):
    return v if isinstance(v, str) else "?" + repr(v)


def x5c_name(v):
    return name(list(v)) if v else ""


def abskey(k):
    """(key record of spec/Jwk.tla, native form agrees)"""
    r = {"kty": text_attr(k.kty), "kid": text_attr(k.kid), "use": text_attr(k.use), "alg": text_attr(k.alg), "crv": "",
         "x5c": x5c_name(k.x5c), "x5t": text_attr(k.x5t), "x5u": text_attr(k.x5u), "priv": False, "full": False, "pub": "?"}
    if isinstance(k, SYMKey):
        kk = k.key
        r.update(pub=matname(bytes(kk)) if isinstance(kk, (bytes, bytearray)) else "?", priv=True)
        ser = k.serialize().get("k")
        return r, isinstance(kk, bytes) and ser == u(kk)
    if isinstance(k, RSAKey):
        n, e = k.n, k.e
        if not (isinstance(n, int) or type(n).__name__.startswith("Integer")):
            return r, False
        m = RsaMat(int(n), int(e))
        r["pub"] = matname(m)
        native = k.key is not None and int(k.key.n) == m.n and int(k.key.e) == m.e
        known = POOL[r["pub"]]
        if k.d:
            d = int(k.d)
            r["priv"] = known.d is not None and d == known.d
            r["full"] = bool(k.p and k.q) and {int(k.p), int(k.q)} == {known.p, known.q}
            native = native and k.key.has_private() and int(k.key.d) == d
        else:
            native = native and not k.key.has_private()
        return r, bool(native)
    if isinstance(k, ECKey):
        r["crv"] = text_attr(k.crv)
        if not (isinstance(k.x, int) and isinstance(k.y, int)):
            return r, False
        m = EcMat(r["crv"], k.x, k.y)
        r["pub"] = matname(m)
        known = POOL[r["pub"]]
        if k.d:
            r["priv"] = known.d is not None and k.d == known.d
        native = k.curve is not None and k.curve.name() == r["crv"] and k.curve.bytes == progs.WIDTH.get(r["crv"])
        try:
            native = native and k.get_key() == (k.x, k.y) and (not k.d or k.get_key(private=True) == k.d)
        except ValueError:
            native = False
        return r, bool(native)
    return r, True


def shown(k):
    """The key's exported form and attributes"""
    try:
        s = k.serialize(private=True) if not isinstance(k, SYMKey) else k.serialize()
    except Exception as e:
        s = repr(type(e))
    return canon([s, k.kty, k.use, k.kid, k.alg, list(k.x5c), k.x5t, k.x5u])


class O(object):
    """A key object of the library and what it should be"""
    def __init__(self, oid, key, m, private):
        self.id, self.key, self.m, self.private = oid, key, m, private


class Drv(object):
    def __init__(self, rec, rng):
        self.rec, self.rng = rec, rng
        self.n = 0
        self.dir = tempfile.mkdtemp(prefix="verif-jwk-")

    def finish(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def reset(self):
        self.rec.emit({"op": "reset"})

    def new_id(self):
        self.n += 1
        return "k%d" % self.n

    def attempt(self, f):
        try:
            r = f()
        except Exception as e:
            return None, {"kind": "err", "cls": type(e).__name__}
        return r, None

    # -- getting keys in

    def build(self, route, doc, m, private, at):
        cls = CLS[doc["kty"]] if doc.get("kty") in CLS else Key
        if route == "kw":
            return cls(**doc)
        if route == "kwb":
            return cls(**{k: v.encode() if isinstance(v, str) else v for k, v in doc.items()})
        if route == "keyrep":
            return keyrep(doc)
        if route == "keyrep-none":
            return keyrep(doc, enc=None)
        if route == "keyrep-bytes":
            return keyrep({k: v.encode() if isinstance(v, str) and k != "kty" else v for k, v in doc.items()})
        if route == "jwks":
            ks = KEYS()
            ks.load_jwks(json.dumps({"keys": [doc]}))
            return ks.keys()[0]
        if route == "loadfn":
            return jwk.load_jwks(json.dumps({"keys": [doc]}, ensure_ascii=False))[0]
        if route == "dict":
            ks = KEYS()
            ks.load_dict({"keys": [doc]})
            return list(ks)[0]
        if route == "add":
            ks = KEYS()
            ks.add(doc)
            return list(ks)[0]
        if route == "late":
            k = CLS[doc["kty"]](**{a: v for a, v in doc.items() if a in ATTRS})
            for a, v in doc.items():
                if hasattr(k, a):
                    setattr(k, a, v)
            k.deserialize()
            return k
        if route == "dictfn":
            return key_from_jwk_dict(doc, private=private)
        if route == "native":
            return RSAKey(key=native_rsa(m, private), **at)
        if route == "load":
            return RSAKey(**at).load_key(native_rsa(m, private))
        if route == "file":
            path = os.path.join(self.dir, "key.pem")
            with open(path, "wb") as f:
                f.write(native_rsa(m, private).export_key())
            return RSAKey(**at).load(path)
        if route == "wrap":
            return jwk.jwk_wrap(native_rsa(m, private) if m.__class__ is RsaMat else m.decode(), use=at.get("use", ""), kid=at.get("kid", ""))
        if route == "wrapadd":
            ks = KEYS()
            ks.wrap_add(native_rsa(m, private) if m.__class__ is RsaMat else m.decode(), at.get("use", ""), at.get("kid", ""))
            return list(ks)[0]
        if route == "ints":
            return ECKey(crv=m.crv, x=m.x, y=m.y, **dict(at, **({"d": m.d} if private else {})))
        if route == "key":
            return SYMKey(key=m, **at)
        if route == "keytext":
            return SYMKey(key=m.decode(), **at)
        raise AssertionError(route)

    ROUTES = ["kw", "kwb", "keyrep", "keyrep-none", "keyrep-bytes", "jwks", "loadfn", "dict", "add"]

    def import_(self, m, private=True, route=None, shape="full", x5=None, **at):
        rng = self.rng
        kty = kty_of(m)
        at = {k: v for k, v in at.items() if v}
        route = route or pick(rng, self.ROUTES)
        full = kty == "RSA" and private and shape != "d"
        if route in ("dictfn",):
            at = {"kid": at.get("kid") or "k1"}
            x5 = None
            full = kty == "RSA" and private
        if route in ("wrap", "wrapadd"):
            at.pop("alg", None)
        doc = jwk_of(m, private, **at)
        if kty == "RSA" and private:
            if shape == "d" and route != "dictfn":
                del doc["p"], doc["q"]
            if shape == "crt":
                doc.update({k: u(progs.i2b(v)) for k, v in full_private(m).items()})
        if route in ("native", "load", "file", "wrap", "wrapadd"):
            full = kty == "RSA" and private
        if x5 and route in self.ROUTES:
            doc.update(x5)
        else:
            x5 = {}
        if rng.random() < .1 and route in self.ROUTES:
            doc["foo"] = "bar"
        items = list(doc.items())
        rng.shuffle(items)
        doc = dict(items)
        k, err = self.attempt(lambda: self.build(route, dict(doc), m, private, at))
        desc = {"kty": kty, "crv": crv_of(m), "pub": matname(m), "priv": kty == "oct" or bool(private), "full": full,
                "x5c": x5c_name(x5.get("x5c")), "x5t": x5.get("x5t", ""), "x5u": x5.get("x5u", "")}
        desc.update({a: at.get(a, "") for a in ATTRS})
        oid = self.new_id()
        out = err
        if not err:
            r, native = abskey(k)
            out = {"kind": "ok", "key": r, "native": native}
        self.rec.emit({"op": "import", "route": route, "form": "ok", "obj": oid, "desc": desc, "out": out},
                      {"what": "import", "route": route, "doc": doc, "shape": shape})
        return O(oid, k, m, private) if k is not None else None

    def bad_import(self, m, doc, form, what, route=None):
        route = route or pick(self.rng, self.ROUTES + ["late"] + (["dictfn"] if what.split()[-1] not in ("dp", "dq", "qi") else []))
        private = "kid" not in doc or self.rng.random() < .7
        if route == "dictfn":
            doc = dict({"kid": "k1"}, **doc)
            if not private and set(what.split()) & {"d", "p", "q"}:
                private = True
        k, err = self.attempt(lambda: self.build(route, dict(doc), m, private, {}))
        self.rec.emit({"op": "import", "route": route, "form": form, "obj": "", "out": err or {"kind": "ok"}},
                      {"what": what, "route": route, "doc": doc})

    def generate(self, crv):
        """A key pair made by the library"""
        rng = self.rng
        c = NISTEllipticCurve.by_name(crv)
        how = rng.randrange(4)
        at = {"kid": pick(rng, ["", "g1"]), "use": pick(rng, ["", "sig"])}

        def f():
            if how == 0:
                return ECKey(key=c, **at)
            if how == 1:
                return ECKey(**at).load_key(c)
            if how == 2:
                return jwk.jwk_wrap(c, use=at["use"], kid=at["kid"])
            ks = KEYS()
            ks.wrap_add(c, use=at["use"], kid=at["kid"])
            return ks.keys()[0]
        k, err = self.attempt(f)
        oid = self.new_id()
        if err:
            self.rec.emit({"op": "import", "route": "generate", "form": "ok", "obj": oid, "desc": {}, "out": err}, {"what": "generate"})
            return None
        ok = isinstance(k.d, int) and 0 < k.d < progs.ORDER[crv]
        pt = progs.ec_point(crv, *progs.GEN[crv]) * k.d if ok else None
        m = EcMat(crv, int(pt.x), int(pt.y), k.d) if ok else EcMat(crv, 0, 0, None)
        matname(m)
        r, native = abskey(k)
        desc = {"kty": "EC", "crv": crv, "pub": matname(m), "priv": True, "full": False, "kid": at["kid"], "use": at["use"], "alg": "",
                "x5c": "", "x5t": "", "x5u": ""}
        self.rec.emit({"op": "import", "route": "generate", "form": "ok", "obj": oid, "desc": desc,
                       "out": {"kind": "ok", "key": r, "native": native}}, {"what": "generate", "crv": crv})
        return O(oid, k, m, True)

    # -- getting keys out

    def export(self, o, private):
        before = shown(o.key)
        how = self.rng.randrange(3)
        doc, err = self.attempt(lambda: (o.key.serialize(private) if how else o.key.serialize(private=private)) if private
                                else (o.key.serialize() if how else o.key.serialize(private=False)))
        out = err or {"kind": "ok", "doc": {k: text_attr(v) for k, v in doc.items()}, "leaks": find(json.dumps(doc, default=repr), [o.m])}
        self.rec.emit({"op": "export", "obj": o.id, "private": bool(private), "mat": matname(o.m), "forms": forms(o.m), "out": out,
                       "same": shown(o.key) == before}, {"what": "export"})
        return doc

    def again(self, o, private, route=None):
        """Exports and reads the export"""
        rng = self.rng
        route = route or pick(rng, self.ROUTES + ["dump", "todict"])

        def f():
            if route == "dump" and not private:
                ks = KEYS()
                ks.append(o.key)
                return KEYS().load_jwks(ks.dump_jwks()).keys()[0]
            if route == "todict" and private:
                return CLS[o.key.kty](**o.key.to_dict())
            doc = o.key.serialize(private=private)
            return self.build(route if route in self.ROUTES else "jwks", doc, o.m, private, {})
        k, err = self.attempt(f)
        oid = self.new_id()
        out = err
        if not err:
            r, native = abskey(k)
            out = {"kind": "ok", "key": r, "native": native}
        self.rec.emit({"op": "again", "from": o.id, "obj": oid, "private": bool(private), "out": out}, {"what": "again", "route": route})
        return O(oid, k, o.m, o.private and (private or isinstance(o.m, bytes))) if k is not None else None

    def keep(self, o, private):
        """An export put aside, with what the key was then"""
        oid = self.new_id()
        doc, err = self.attempt(lambda: o.key.serialize(private=private))
        self.rec.emit({"op": "keep", "from": o.id, "doc": oid}, {"what": "keep"})
        return {"id": oid, "doc": doc, "private": private, "m": o.m, "had": o.private}

    def read(self, kept):
        rng, oid, private = self.rng, self.new_id(), kept["private"]
        route = pick(rng, self.ROUTES)
        k, err = self.attempt(lambda: self.build(route, kept["doc"], kept["m"], private, {}))
        out = err
        if not err:
            r, native = abskey(k)
            out = {"kind": "ok", "key": r, "native": native}
        self.rec.emit({"op": "again", "from": kept["id"], "obj": oid, "private": bool(private), "out": out}, {"what": "again", "route": route})
        return O(oid, k, kept["m"], kept["had"] and (private or isinstance(kept["m"], bytes))) if k is not None else None

    def copy(self, o):
        before = shown(o.key)
        k, err = self.attempt(lambda: make_public_copy(o.key))
        oid = self.new_id()
        out = err
        if not err:
            bag = []
            walk(k, set(), bag)
            r, native = abskey(k)
            sign = self.usable(k, o)
            out = {"kind": "ok", "key": r, "native": native and sign, "leaks": find("\n".join(bag), [o.m])}
        self.rec.emit({"op": "copy", "obj": o.id, "new": oid, "out": out, "same": shown(o.key) == before}, {"what": "copy"})
        return O(oid, k, o.m, False) if k is not None else None

    def usable(self, k, o):
        """Does the public key serve: a token of the specification's signer verifies"""
        alg = self.sigalg(o.m)
        if not alg or o.m.d is None:
            return True
        from drv_jws import make
        hd = {"alg": alg}
        if k.kid:
            hd["kid"] = k.kid
        tok = make(alg, o.m, json.dumps(hd).encode(), b"x")
        old, k.alg = k.alg, ""
        try:
            return JWS().verify_compact(tok.decode(), [k]) == "x"
        except Exception:
            return False
        finally:
            k.alg = old

    def sigalg(self, m):
        if isinstance(m, bytes):
            return "HS256"
        if isinstance(m, RsaMat):
            return pick(self.rng, ["RS256", "PS256"]) if m.n.bit_length() >= 600 else "RS256"
        return {"P-256": "ES256", "P-384": "ES384", "P-521": "ES512"}[m.crv]

    def public(self, objs, how):
        """The keys as they appear in key sets and headers"""
        def dump():
            ks = KEYS()
            for o in objs:
                ks.append(o.key)
            t = {0: ks.dump_jwks, 1: ks.__repr__, 2: ks.__str__}[self.rng.randrange(3)]()
            return t, json.loads(t)["keys"]

        def header(tok):
            t = absjws.progs.b64loose(tok.split(".")[0].encode()).decode()
            return json.loads(t)

        def jwsjwk():
            o = objs[0]
            mode = self.rng.randrange(3)
            given = pick(self.rng, [o.key, o.key, o.key.serialize(private=True), json.dumps(o.key.serialize(private=True))])
            s = JWS("m", alg="HS256", jwk=given)
            if mode == 1:
                s = JWS("m", alg="HS256")
                h = s.headers({"jwk": o.key})
                return json.dumps(h), [h["jwk"]]
            if mode == 2:
                h = s.headers()
                return json.dumps(h), [h["jwk"]]
            h = header(s.sign_compact([SYMKey(key=b"0123456789abcdef")]))
            return json.dumps(h), [h["jwk"]] if "jwk" in h else []

        def jwejwk():
            o = objs[0]
            tok = JWE("m", alg="RSA-OAEP", enc="A128GCM", jwk=pick(self.rng, [o.key, o.key.serialize(private=True)])).encrypt([RSAKey(key=native_rsa(POOL["r1024a"], False))])
            h = header(tok)
            if "jwk" not in h:
                return "", []
            return json.dumps(h), [h["jwk"]]

        def epk():
            o = objs[0]
            peer = {"P-256": "p256b", "P-384": "p384b", "P-521": "p521b"}[o.m.crv]
            alg = pick(self.rng, ["ECDH-ES", "ECDH-ES+A128KW"])
            j = JWE_EC("m", alg=alg, enc="A128GCM")
            cek, ek, iv, params, _ = j.enc_setup("m", b"", key=build(POOL[peer], False), epk=o.key)
            tok = j.encrypt(iv=iv, cek=cek, encrypted_key=ek, params=params, key=None)
            h = header(tok)
            return absjws.progs.b64loose(tok.split(".")[0].encode()).decode(), [h["epk"]]

        before = [shown(o.key) for o in objs]
        r, err = self.attempt({"dump": dump, "jwsjwk": jwsjwk, "jwejwk": jwejwk, "epk": epk}[how])
        out = err
        ids = [o.id for o in objs]
        if not err:
            text, docs = r
            out = {"kind": "ok", "docs": [{k: text_attr(v) for k, v in d.items()} for d in docs],
                   "leaks": find(text, [o.m for o in objs if not isinstance(o.m, bytes)])}
            if how in ("jwejwk", "jwsjwk") and not docs:
                ids = []
        self.rec.emit({"op": "public", "how": how, "objs": ids, "forms": [forms(o.m) for o in objs][:len(ids)], "out": out,
                       "same": [shown(o.key) for o in objs] == before}, {"what": how})

    # -- comparing

    def eq(self, a, b):
        x = a.key
        y = b.key if isinstance(b, O) else b
        before = shown(x), shown(y) if isinstance(b, O) else ""
        r, err = self.attempt(lambda: (x == y, x != y))
        ok = not err and isinstance(r[0], bool) and isinstance(r[1], bool)
        out = {"kind": "ok", "eq": r[0], "ne": r[1]} if ok else {"kind": "err", "cls": (err or {}).get("cls", "no bool"), "eq": False, "ne": False}
        self.rec.emit({"op": "eq", "a": a.id, "b": b.id if isinstance(b, O) else "", "out": out,
                       "same": (shown(x), shown(y) if isinstance(b, O) else "") == before}, {"what": "eq"})

    def hash(self, o):
        before = shown(o.key)
        h, err = self.attempt(lambda: hash(o.key))
        self.rec.emit({"op": "hash", "obj": o.id, "out": err or {"kind": "ok", "h": str(h)}, "same": shown(o.key) == before}, {"what": "hash"})

    def tp(self, o):
        bits = pick(self.rng, [256, 384, 512])
        before = shown(o.key)
        t, err = self.attempt(lambda: o.key.thumbprint("SHA-%d" % bits))
        w = thumb(o.m, bits)
        out = err or {"kind": "ok", "tp": t.hex() if isinstance(t, bytes) else repr(t)}
        self.rec.emit({"op": "tp", "obj": o.id, "want": {"rfc": w[0].hex(), "nokty": w[1].hex()}, "out": out, "same": shown(o.key) == before},
                      {"what": "tp", "bits": bits})

    def addkid(self, o):
        _, err = self.attempt(o.key.add_kid)
        w = thumb(o.m, 256)
        self.rec.emit({"op": "addkid", "obj": o.id, "want": {"rfc": u(w[0]), "nokty": u(w[1])}, "out": err or {"kind": "ok", "kid": text_attr(o.key.kid)}},
                      {"what": "addkid"})

    def set(self, o, attr, val):
        setattr(o.key, attr, val)
        self.rec.emit({"op": "set", "obj": o.id, "attr": attr, "val": val}, {"what": "set"})

    def load(self, o, m, private):
        """Puts another native key into an RSA key object"""
        if isinstance(m, EcMat):
            c = NISTEllipticCurve.by_name(m.crv)
            c.key_pair = lambda: (m.d, (m.x, m.y))
            o.key.load_key(c)
        elif self.rng.random() < .7:
            o.key.load_key(native_rsa(m, private))
        else:
            path = os.path.join(self.dir, "key.pem")
            with open(path, "wb") as f:
                f.write(native_rsa(m, private).export_key())
            o.key.load(path)
        o.m, o.private = m, private
        self.rec.emit({"op": "load", "obj": o.id, "pub": matname(m), "priv": bool(private), "full": bool(private) and isinstance(m, RsaMat), "crv": crv_of(m)},
                      {"what": "load"})

    # -- using

    def use(self, o):
        rng, k = self.rng, o.key
        before = shown(k)

        def f():
            r = rng.randrange(9)
            if r == 0:
                JWS("x", alg=self.sigalg(o.m)).sign_compact([k])
            elif r == 1:
                JWS("x", alg=self.sigalg(o.m)).verify_compact("eyJhbGciOiJIUzI1NiJ9.eA.AAAA", [k])
            elif r == 2:
                JWE("x", alg=self.encalg(o.m), enc="A128GCM").encrypt([k])
            elif r == 3:
                str(k)
            elif r == 4:
                k.to_dict()
                k.keys()
            elif r == 5:
                k.verify()
            elif r == 6:
                k.get_hash(pick(rng, ["SHA-256", "SHA-384", "SHA-512", None]))
            elif r == 7:
                k.serialize(private=True)
                k.serialize()
            else:
                k.encryption_key(**({"alg": "A128KW"} if isinstance(o.m, bytes) else {"private": True}))
        _, err = self.attempt(f)
        self.rec.emit({"op": "use", "obj": o.id, "same": shown(k) == before, "out": err or {"kind": "ok"}}, {"what": "use"})

    def encalg(self, m):
        if isinstance(m, bytes):
            return "A128KW"
        return "RSA-OAEP" if isinstance(m, RsaMat) else "ECDH-ES+A128KW"

    def cross(self, a, b):
        """Signs (encrypts) with one key and verifies (decrypts) with the other"""
        rng = self.rng
        if kty_of(a.m) != kty_of(b.m) or a.key.kid != b.key.kid or crv_of(a.m) != crv_of(b.m):
            return
        small = isinstance(a.m, RsaMat) and min(size_of(a.m), size_of(b.m)) < 1000
        what = "sign" if small or rng.random() < .5 else "encrypt"
        alg = self.sigalg(a.m) if what == "sign" else self.encalg(a.m)
        use = "sig" if what == "sign" else "enc"
        for o in (a, b):
            if o.key.alg not in ("", alg) or o.key.use not in ("", use):
                return

        def f():
            if what == "sign":
                tok = JWS("crossed", alg=alg).sign_compact([a.key])
                r = JWS().verify_compact(tok, [b.key])
                assert r == "crossed"
            else:
                tok = JWE("crossed", alg=alg, enc="A128GCM").encrypt([a.key])
                r = JWE().decrypt(tok, [b.key])
                assert r == b"crossed"
            return r
        before = shown(a.key), shown(b.key)
        _, err = self.attempt(f)
        self.rec.emit({"op": "cross", "what": what, "a": a.id, "b": b.id, "alg": alg, "out": err or {"kind": "ok"},
                       "same": (shown(a.key), shown(b.key)) == before}, {"what": what, "alg": alg})

    # -- certificates

    def x5(self, ders, pub, x5t, rel, what, private=None):
        rng = self.rng
        doc = {"kty": "RSA", "x5c": [certs.x5c(d) if isinstance(d, bytes) else d for d in ders]}
        if x5t is not None:
            doc["x5t"] = x5t
        der = ders[0] if isinstance(ders[0], bytes) else b""
        s1, s256 = u(hashlib.sha1(der).digest()), u(hashlib.sha256(der).digest())
        for a, vs in (("kid", ["k1", x5t or "k1", s1, s256]), ("use", ["sig", "enc"]), ("alg", ["RS256", "RSA-OAEP"]), ("x5u", [net.home().base + "x5"]),
                      ("x5t#S256", [s256, s256, u(b"x" * 32)]), ("key_ops", [["verify"]])):
            if rng.random() < .2:
                doc[a] = pick(rng, vs)
        route = pick(rng, ["kw", "kwb", "keyrep", "keyrep-none", "jwks", "loadfn", "dict", "add", "bytes", "late"])
        if route == "kwb":
            doc.pop("key_ops", None)

        def f():
            if route == "late":
                k = RSAKey(**{a: doc[a] for a in doc if a not in ("x5c", "x5t")})
                k.x5c, k.x5t = doc["x5c"], doc.get("x5t", "")
                k.deserialize()
                return k
            if route == "bytes":
                d = dict(doc, x5c=[c.encode() for c in doc["x5c"]])
                return keyrep(d)
            return self.build(route, doc, None, False, {})
        k, err = self.attempt(f)
        out = err
        if not err:
            r, native = abskey(k)
            out = {"kind": "ok", "key": r, "native": native}
        at = {a: doc.get(a, "") for a in ("kid", "use", "alg")}
        self.rec.emit({"op": "x5", "pub": pub, "x5t": rel, "at": at, "out": out}, {"what": what, "route": route, "doc": doc})
        return k
