"""From real JWS tokens to the token records of spec/Jws.tla."""
import json

import progs
from common import POOL, canon, kty_of, mat_of_jwk, matname, name

PROG = None      # progs.Programs, set by the driver
CACHE = {}
LOOSE = dict(progs.OPS)

NONE = {"parts": 0, "b64": [], "hdr": "bad", "algk": "absent", "alg": "", "none": False, "kid": "",
        "crit": False, "cty": "absent", "valid": [], "raw": "", "text": "", "json": "", "sigempty": True}

KTY = {"H": "oct", "R": "RSA", "P": "RSA", "E": "EC"}


def lenient(prog, env):
    """Runs a verify program with a tolerant base64 decoder"""
    strict = progs.OPS["b64d"]

    def loose(s):
        d = progs.b64loose(s)
        if d is None:
            raise progs.Fail("b64")
        return d
    progs.OPS["b64d"] = loose
    try:
        return progs.run(prog, env)
    finally:
        progs.OPS["b64d"] = strict


def validates(alg, parts, mat):
    """Is the signature valid under this material, by the specification?"""
    if alg not in PROG.jws_verify or kty_of(mat) != KTY[alg[0]]:
        return False
    k = (alg, tuple(parts), matname(mat))
    if k not in CACHE:
        if len(CACHE) > 20000:
            CACHE.clear()
        try:
            lenient(PROG.jws_verify[alg], dict(h64=parts[0], p64=parts[1], s64=parts[2], key=mat))
            CACHE[k] = True
        except progs.Fail:
            CACHE[k] = False
    return CACHE[k]


def b64class(p):
    try:
        progs.b64d(p)
        return "canon"
    except progs.Fail:
        return "bad" if progs.b64loose(p) is None else "loose"


def header_of(part):
    raw = progs.b64loose(part)
    if raw is None:
        return None
    try:
        h = json.loads(raw.decode("utf-8"))
    except (ValueError, RecursionError):
        return None
    return h if isinstance(h, dict) else None


def forms(raw):
    """names of the payload as octets, text and JSON"""
    try:
        text = raw.decode("utf-8")
    except UnicodeDecodeError:
        text = None
    try:
        j = name(json.loads(text if text is not None else raw))
    except (ValueError, RecursionError):
        j = ""
    return name(raw), (name(text) if text is not None else ""), j


def abstract(token, mats):
    """token: str or bytes; mats: names of the materials that matter"""
    if isinstance(token, str):
        try:
            token = token.encode("utf-8")
        except UnicodeEncodeError:
            return dict(NONE)
    parts = token.split(b".")
    t = dict(NONE, parts=len(parts), b64=[b64class(p) for p in parts])
    h = header_of(parts[0])
    if h is None:
        return t
    t["hdr"] = "obj"
    if "alg" in h:
        a = h["alg"]
        t["algk"] = "str" if isinstance(a, str) else "null" if a is None else "other"
        if isinstance(a, str):
            t["alg"] = a
        t["none"] = a is None or isinstance(a, str) and a.lower() == "none"
    kid = h.get("kid")
    t["kid"] = "" if not kid else kid if isinstance(kid, str) else "?" + canon(kid)
    t["crit"] = "crit" in h
    if "cty" in h:
        c = h["cty"]
        t["cty"] = "odd" if not isinstance(c, str) else "jwt" if c.lower() == "jwt" else "text"
    if len(parts) != 3:
        return t
    t["sigempty"] = parts[2] == b""
    raw = progs.b64loose(parts[1])
    if raw is not None:
        t["raw"], t["text"], t["json"] = forms(raw)
    if "bad" not in t["b64"] and t["algk"] == "str":
        t["valid"] = sorted({n for n in mats if n in POOL and validates(t["alg"], parts, POOL[n])})
    return t


def hdr_texts(part):
    """The header as a function from names to JSON texts"""
    h = header_of(part)
    return {} if h is None else {str(k): canon(v) if not isinstance(v, str) else '"%s"' % v for k, v in h.items()}


def kid_text(v):
    return "" if not v else v if isinstance(v, str) else "?" + canon(v)


def abstract_doc(text, mats):
    """A JSON-serialized JWS"""
    bad = {"ok": False, "sigs": [], "odd": False}
    try:
        d = json.loads(text)
    except (ValueError, TypeError, RecursionError, UnicodeDecodeError):
        return bad
    if not isinstance(d, dict) or not isinstance(d.get("payload"), str):
        return bad
    # NaN is not JSON, and not equal to itself when payloads are compared
    odd = b"NaN" in (progs.b64loose(d["payload"].encode("utf-8", "replace")) or b"")
    if "signatures" in d:
        sigs = d["signatures"]
        if not isinstance(sigs, list):
            return bad
        odd = odd or "signature" in d or "protected" in d or "header" in d
    else:
        sigs = [{k: d[k] for k in ("protected", "header", "signature") if k in d}]
    out = []
    for s in sigs:
        if not isinstance(s, dict) or not isinstance(s.get("signature"), str):
            return bad
        prot, un = s.get("protected", ""), s.get("header", {})
        if not isinstance(prot, str) or not isinstance(un, dict):
            return bad
        try:
            parts = [prot.encode(), d["payload"].encode(), s["signature"].encode()]
        except UnicodeEncodeError:
            return bad
        h = header_of(parts[0]) or {}
        if set(h) & set(un) or "crit" in un or "alg" in un and "alg" not in h or un.get("alg") is not None:
            odd = True
        if any(k in ("self", "msg", "with_digest") for k in list(h) + list(un)):
            odd = True
        m = dict(un)
        m.update(h)
        ms, jk = list(mats), []
        if "jwk" in m:
            jm = mat_of_jwk(m["jwk"]) if isinstance(m["jwk"], dict) else None
            if jm is None or (isinstance(jm, bytes)) or not isinstance(m["jwk"].get("kid", ""), str):
                odd = True
            if jm is not None:
                n = matname(jm)
                ms.append(n)
                jd = m["jwk"]
                jk = [{"mat": n, "kty": kty_of(jm), "crv": jd.get("crv", ""), "kid": kid_text(jd.get("kid")),
                       "use": jd.get("use", "") or "", "alg": jd.get("alg", "") or "", "priv": "d" in jd,
                       "size": 0}]
        out.append({"tok": abstract(b".".join(parts), ms), "kid": kid_text(m.get("kid")),
                    "haskid": "kid" in m, "jwk": jk})
    return {"ok": True, "sigs": out, "odd": odd}
