"""From real JWE tokens to the token records of spec/Jwe.tla."""
import progs
from absjws import b64class, header_of, kid_text, lenient
from common import POOL, matname, kty_of, name
from progs import EcMat, RsaMat

PROG = None
CACHE = {}
NONE = {"parts": 0, "b64": [], "hdr": "bad", "algk": "absent", "alg": "", "enck": "absent", "enc": "", "zip": "absent",
        "kid": "", "crit": False, "epk": "absent", "epkcrv": "", "opens": [], "cekpay": "", "odd": False}
RSA = ("RSA1_5", "RSA-OAEP", "RSA-OAEP-256")
KW = ("A128KW", "A192KW", "A256KW")
EC = ("ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW")
ENCS = ("A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM", "A192GCM", "A256GCM")
TYPE = dict([(a, "RSA") for a in RSA] + [(a, "oct") for a in KW] + [(a, "EC") for a in EC])


def kind(h, m):
    if m not in h:
        return "absent", ""
    v = h[m]
    return ("str", v) if isinstance(v, str) else ("null", "") if v is None else ("other", "")


def number(v):
    """(integer, is it in canonical full-width form)"""
    if isinstance(v, bool) or not isinstance(v, (str, int)):
        return None, False
    if isinstance(v, int):
        return v, False
    b = v.encode("utf-8", "replace")
    r = progs.b64loose(b)
    if r is None or not r:
        return None, False
    return int.from_bytes(r, "big"), len(r)


def epk_of(h):
    """(class, curve, point or None, odd)"""
    if "epk" not in h:
        return "absent", "", None, False
    e = h["epk"]
    if not isinstance(e, dict) or e.get("crv") not in progs.WIDTH:
        return "bad", "", None, False
    crv = e["crv"]
    (x, wx), (y, wy) = number(e.get("x")), number(e.get("y"))
    if x is None or y is None:
        return "bad", crv, None, False
    w = progs.WIDTH[crv]
    odd = wx != w or wy != w or e.get("kty") != "EC" or not set(e) <= {"kty", "crv", "x", "y", "kid", "use", "alg"} \
        or any(b64class(e[m].encode("utf-8", "replace")) != "canon" for m in ("x", "y") if isinstance(e[m], str))
    return ("ok" if progs.on_curve(crv, x, y) else "bad"), crv, (crv, x, y), odd


def party(h, m):
    """(octets or None, odd)"""
    if m not in h:
        return b"", False
    v = h[m]
    if not isinstance(v, str):
        return None, False
    b = v.encode("utf-8", "replace")
    c = b64class(b)
    return (None if c == "bad" else progs.b64loose(b)), c == "loose"


def open_with(alg, enc, zip_, parts, mat, epub, apu, apv, raw=False):
    """(payload, content key) by the program of the specification, or None"""
    k = (alg, enc, zip_, tuple(parts), matname(mat), epub, apu, apv, raw)
    if k not in CACHE:
        if len(CACHE) > 5000:
            CACHE.clear()
        CACHE[k] = None
        a = alg
        if raw and isinstance(mat, bytes):
            a = "A%dKW" % (8 * len(mat))
        prog = PROG.jwe_dec.get(PROG.jwe_name(a, enc, zip_, raw and isinstance(mat, bytes)))
        if prog is not None and TYPE.get(alg) == kty_of(mat) and getattr(mat, "d", 1):
            try:
                v = lenient(prog, dict(h64=parts[0], e64=parts[1], i64=parts[2], c64=parts[3], t64=parts[4], key=mat,
                                       epub=epub, apu=apu, apv=apv))
                CACHE[k] = (v["msg"], v["cek"])
            except (progs.Fail, KeyError, TypeError):
                pass
    return CACHE[k]


def open_content(enc, zip_, parts, cek):
    """(payload,) under a content key, or None"""
    d = [progs.b64loose(p) for p in parts]
    if None in d or enc not in ENCS:
        return None
    try:
        v = progs.run(PROG.content[enc]["dec"], dict(cek=cek, iv=d[2], ct=d[3], tag=d[4], aad=parts[0]))
        return (progs.inflate(v["pt"]) if zip_ else v["pt"],)
    except progs.Fail:
        return None


def abstract(token, mats, raw=False, cek=None):
    """(record, {"cek": name, "iv": name, "epk": name}, payload names)"""
    made = {"cek": "", "iv": "", "epk": ""}
    if isinstance(token, str):
        try:
            token = token.encode("utf-8")
        except UnicodeEncodeError:
            return dict(NONE), made, set()
    parts = token.split(b".")
    t = dict(NONE, parts=len(parts), b64=[b64class(p) for p in parts], opens=[])
    h = header_of(parts[0])
    if h is None:
        return t, made, set()
    t["hdr"] = "obj"
    t["algk"], t["alg"] = kind(h, "alg")
    t["enck"], t["enc"] = kind(h, "enc")
    t["kid"], t["crit"] = kid_text(h.get("kid")), "crit" in h
    if "zip" in h:
        t["zip"] = "DEF" if h["zip"] == "DEF" and isinstance(h["zip"], str) else "falsy" if not h["zip"] else "bad"
    t["epk"], t["epkcrv"], pt, odd = epk_of(h)
    apu, o1 = party(h, "apu")
    apv, o2 = party(h, "apv")
    ec = t["alg"] in EC
    t["odd"] = bool(ec and (odd or o1 or o2))
    pays = set()
    if len(parts) == 5 and "bad" not in t["b64"] and t["zip"] != "bad":
        made["iv"] = "iv:" + name(progs.b64loose(parts[2]))
        z = t["zip"] == "DEF"
        if cek:
            p = open_content(t["enc"], z, parts, cek)
            t["cekpay"] = name(p[0]) if p else ""
        if t["alg"] in TYPE and t["enc"] in ENCS and not (ec and (t["epk"] != "ok" or apu is None or apv is None)):
            for n in sorted(set(mats)):
                if n not in POOL:
                    continue
                if raw and isinstance(POOL[n], bytes) and t["alg"] in KW and "A%dKW" % (8 * len(POOL[n])) != t["alg"]:
                    t["odd"] = True
                r = open_with(t["alg"], t["enc"], z, parts, POOL[n], pt, apu, apv, raw)
                if r:
                    t["opens"].append({"mat": n, "pay": name(r[0])})
                    pays.add(name(r[0]))
                    if not made["cek"]:
                        made["cek"] = "cek:" + name(r[1])
        if ec and pt:
            made["epk"] = "epk:" + name(pt)
    return t, made, pays
