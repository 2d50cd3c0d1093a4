"""Drives jwkest.jwe and records what it does (events for spec/JweTrace.tla)."""
import json
import threading

import absjwe
import absjws
import progs
from absjwe import EC as EC_ALGS, ENCS, KW, RSA as RSA_ALGS, abstract
from absjws import hdr_texts, header_of, kid_text
from common import K, POOL, canon, kty_of, lib, matname, name, native_rsa, pick, snap
from drv_jws import Driver as JwsDriver
from lures import publish
from progs import b64u

import jwkest.extra
import jwkest.jwe
from jwkest.jwe import JWE, JWE_RSA, JWE_SYM, NoSuitableDecryptionKey, NoSuitableECDHKey, NoSuitableEncryptionKey
from jwkest.jwe import factory as jwe_factory
from jwkest.jwk import SYMKey

ALGS = RSA_ALGS + KW + EC_ALGS
NOKEY = (NoSuitableDecryptionKey, NoSuitableECDHKey, NoSuitableEncryptionKey)


class Counter(threading.local):
    n = 0


DERIVED = Counter()


def watch_kdf():
    """Counts key derivations, where the function can be found"""
    f = getattr(jwkest.extra, "concat_sha256", None)
    if f is None or getattr(f, "watched", False):
        return

    def concat_sha256(*a, **k):
        DERIVED.n += 1
        return f(*a, **k)
    concat_sha256.watched = True
    jwkest.extra.concat_sha256 = concat_sha256


class Obj(object):
    """A JWE object under observation"""
    count = 0

    def __init__(self, drv, msg=None, jwkkey=None, adopted=None, jwtkid="", raw=None, url=(), **kw):
        """url: the keys that lie where jku or x5u points to"""
        Obj.count += 1
        self.url, self.at = list(url), kw
        self.id, self.drv, self.jwk, self.kw, self.raw = "e%d" % Obj.count, drv, jwkkey, dict(kw), raw
        args = dict(kw)
        if jwkkey is not None:
            args["jwk"] = jwkkey.key
        if "epk" in args:               # an ephemeral key of the caller's
            args["epk"] = args["epk"].key
        self.o = adopted if adopted is not None else (raw or JWE)(msg, **args)
        drv.rec.emit({"op": "new", "obj": self.id, "pin": kw.get("alg", "") or "", "kid": kid_text(kw.get("kid")),
                      "haskid": "kid" in kw, "jwk": [jwkkey.rec] if jwkkey else [k.rec for k in self.url],
                      "url": bool(self.url and not jwkkey), "jwtkid": jwtkid},
                     {"new": {k: v for k, v in kw.items() if k != "epk"}})

    def there(self, ks):
        """Other keys lie there now"""
        publish(self.drv.rng, ks, self.at)
        self.url = list(ks)
        self.drv.rec.emit({"op": "there", "obj": self.id, "jwk": [k.rec for k in ks]}, {"at": self.at})


def texts(d):
    d = {k: v.decode() if isinstance(v, bytes) else v for k, v in d.items()}
    return {k: canon(v) if not isinstance(v, str) else '"%s"' % v for k, v in d.items()}


class Driver(JwsDriver):
    def __init__(self, rec, rng, prog):
        self.rec, self.rng = rec, rng
        absjwe.PROG = absjws.PROG = prog
        watch_kdf()

    def decrypt(self, obj, token, ks, want=None, cek=None, what="", usetoken=True, asbytes=None):
        rng = self.rng
        cont = (ks[0].key if False else self.container(ks)) if ks else pick(rng, [None, []])
        mats = [k.rec["mat"] for k in ks] + [k.rec["mat"] for k in ([obj.jwk] if obj.jwk else obj.url)]
        before = snap(cont)
        tok, _, pays = abstract(token, mats, False, cek)
        if cek and tok["cekpay"]:
            pays.add(tok["cekpay"])
        msg0 = getattr(obj.o, "msg", None)
        out = {"kind": "err", "nokey": False, "pay": "", "leak": False, "cls": "", "derived": False}
        if isinstance(token, str) and (asbytes if asbytes is not None else rng.random() < .5):
            token = token.encode("utf-8", "replace")
        d0 = DERIVED.n
        try:
            a = {}
            if want is not None:
                a["alg"] = want
            if cek is not None:
                a["cek"] = cek
            if usetoken:
                v = lib(obj.o.decrypt, token, cont, **a)
            else:
                v = lib(obj.o.decrypt, keys=cont, **a)
            out.update(kind="ok", pay=name(v))
        except Exception as e:
            m = getattr(obj.o, "msg", None)
            out.update(cls=type(e).__name__, nokey=isinstance(e, NOKEY),
                       leak=bool(m is not None and m is not msg0 and name(m) in pays))
        out["derived"] = DERIVED.n > d0
        self.rec.emit({"op": "decrypt", "form": "sel", "obj": obj.id, "keys": [k.rec for k in ks], "want": want or "",
                       "hascek": bool(cek), "tok": tok, "out": out, "same": snap(cont) == before},
                      {"what": what, "token": token if isinstance(token, str) else token.decode("latin1"),
                       "keys": [(k.rec["mat"], k.rec["kid"]) for k in ks], "got": out})
        return out["kind"] == "ok"

    def encrypt(self, obj, msg, ks, cek=b"", iv=b"", what=""):
        cont = self.container(ks) if ks else pick(self.rng, [None, []])
        before = snap(cont)
        mats = [k.rec["mat"] for k in ks] + [k.rec["mat"] for k in ([obj.jwk] if obj.jwk else obj.url)]
        obj.o.msg = msg
        kw = obj.kw
        raw = msg.encode() if isinstance(msg, str) else msg
        a = {}
        if cek:
            a["cek"] = cek
        if iv:
            a["iv"] = iv
        out, tok = {"kind": "err", "nokey": False, "cls": ""}, None
        try:
            tok = lib(obj.o.encrypt, cont, **a)
            out["kind"] = "tok"
        except Exception as e:
            out.update(cls=type(e).__name__, nokey=isinstance(e, NOKEY))
        self.record(obj, "sel", ks, raw, tok, out, cek, iv, mats, before == snap(cont), what)
        return tok

    def record(self, obj, form, ks, raw, tok, out, cek, iv, mats, same, what):
        kw = obj.kw
        rec, made, hdr, pub = dict(absjwe.NONE), {"cek": "", "iv": "", "epk": ""}, {}, True
        if tok is not None:
            rec, made, _ = abstract(tok, mats, form == "raw", cek or None)
            hdr = hdr_texts(tok.split(".")[0].encode())
            h = header_of(tok.split(".")[0].encode()) or {}
            if isinstance(h.get("epk"), dict):
                pub = not (set(h["epk"]) & {"d", "p", "q", "k", "dp", "dq", "qi"})
        base = texts({k: v for k, v in kw.items() if v and k != "epk"})
        self.rec.emit({"op": "encrypt", "form": form, "obj": obj.id, "keys": [k.rec for k in ks], "alg": kw.get("alg", "") or "",
                       "enc": kw.get("enc", "") or "", "zip": kw.get("zip", "") or "", "base": base,
                       "gave": {"cek": "cek:" + name(cek) if cek else "", "iv": "iv:" + name(iv) if iv else "",
                                "epk": "epk:" + name((kw["epk"].rec["crv"], kw["epk"].m.x, kw["epk"].m.y)) if "epk" in kw else ""},
                       "made": dict(made, epkpub=pub), "tok": rec, "hdr": hdr, "out": out, "same": same,
                       "msg": {"raw": name(raw), "ok": True}},
                      {"what": what, "token": tok, "kw": kw, "len": len(raw), "keys": [(k.rec["mat"], k.rec["kid"]) for k in ks], "got": out})

    # -- the low-level classes ------------------------------------------------
    def rawkey(self, k, private):
        if isinstance(k.m, bytes):
            return k.m if self.rng.random() < .6 else SYMKey(key=k.m)
        return native_rsa(k.m, private)

    def raw_encrypt(self, obj, msg, k, what=""):
        obj.o.msg = msg
        raw = msg.encode() if isinstance(msg, str) else msg
        out, tok = {"kind": "err", "nokey": False, "cls": ""}, None
        try:
            tok = lib(obj.o.encrypt, self.rawkey(k, False))
            out["kind"] = "tok"
        except Exception as e:
            out.update(cls=type(e).__name__)
        self.record(obj, "raw", [k], raw, tok, out, b"", b"", [k.rec["mat"]], True, what)
        return tok

    def raw_decrypt(self, obj, token, k, what=""):
        tok, _, pays = abstract(token, [k.rec["mat"]], True)
        msg0 = getattr(obj.o, "msg", None)
        out = {"kind": "err", "nokey": False, "pay": "", "leak": False, "cls": "", "derived": False}
        try:
            v = lib(obj.o.decrypt, token, self.rawkey(k, True))
            out.update(kind="ok", pay=name(v))
        except Exception as e:
            m = getattr(obj.o, "msg", None)
            out.update(cls=type(e).__name__, leak=bool(m is not None and m is not msg0 and name(m) in pays))
        self.rec.emit({"op": "decrypt", "form": "raw", "obj": obj.id, "keys": [k.rec], "want": "", "hascek": False, "tok": tok,
                       "out": out, "same": True},
                      {"what": "raw " + what, "token": token if isinstance(token, str) else token.decode("latin1"),
                       "keys": [k.rec["mat"]], "got": out})

    def factory(self, token, what=""):
        typ, kid = jwe_type(token)
        out = {"kind": "ok", "yes": False, "nopay": True, "cls": ""}
        o = None
        try:
            o = lib(jwe_factory, token)
            out["yes"] = o is not None
        except Exception as e:
            out.update(kind="err", cls=type(e).__name__)
        ob = Obj(self, adopted=o if o is not None else JWE(), jwtkid=kid if o is not None else "")
        if o is not None:
            out["nopay"] = o.msg is None
        self.rec.emit({"op": "classify", "obj": ob.id, "type": typ, "out": out},
                      {"what": "jwe.factory " + what, "token": token if isinstance(token, str) else token.decode("latin1"), "got": out})
        return ob if o is not None else None


def jwe_type(token):
    t, _, _ = abstract(token, [])
    if isinstance(token, bytes):
        token = token.decode("latin1")
    kid = t["kid"]
    if "bad" in t["b64"] or t["hdr"] != "obj" or t["parts"] < 2:
        return "not", kid
    if t["parts"] == 3 and "loose" not in t["b64"] and t["algk"] == "str":
        return "jws", kid
    if t["parts"] != 5:
        return "not", kid
    h = header_of(token.split(".")[0].encode("utf-8"))
    typ = h.get("typ", "")
    if not isinstance(typ, str) or "loose" in t["b64"]:
        return "either", kid
    if typ.lower() == "jwe":
        return ("jwe" if typ == "JWE" else "either"), kid
    return ("jwe" if t["alg"] in ALGS and t["enc"] in ENCS else "not"), kid
