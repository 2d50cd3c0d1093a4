"""Header parameters and URLs that offer somebody's key (C20): what a token
says about where its key is to be found."""
import base64
import json

import certs
import net
from common import POOL, jwk_of, kty_of, pick

CERTS = {}


def cert_of(rng, mat):
    if mat not in CERTS:
        CERTS[mat] = certs.cert(rng, POOL[mat], POOL["r2048a"])
    return CERTS[mat]


def pem(der):
    return b"-----BEGIN CERTIFICATE-----\n" + base64.encodebytes(der) + b"-----END CERTIFICATE-----\n"


def publish(rng, ks, at=None):
    """The keys (common.K), put where a URL leads to: what an object has to
    be made with.  The places are few: what lay there before is gone.
    at: what an object was made with."""
    site = net.home()
    how, url = ("", "") if at is None else next((n, at[n]) for n in ("jku", "x5u") if n in at)
    place = url[len(site.base):] or "o%d" % rng.randrange(3)
    if at is not None and not ks:       # nothing is there any more
        text, status = pick(rng, [(b"", 404), (b"gone", 200), (site.pages[place][2], 500), (b'{"keys": 5}', 200)])
        site.put(place, text, status)
        return at
    if len(ks) == 1 and ks[0].rec["kty"] == "RSA" and not (ks[0].rec["priv"] or ks[0].rec["kid"] or ks[0].rec["use"] or ks[0].rec["alg"]) \
            and (how == "x5u" or not how and rng.random() < .6):
        chain = [cert_of(rng, ks[0].rec["mat"])] + [cert_of(rng, pick(rng, ["r1040", "r2048a"])) for _ in range(rng.choice([0, 0, 1, 2]))]
        site.put(place, b"".join(pem(c) for c in chain))
        return {"x5u": site.base + place}
    site.put(place, json.dumps({"keys": [jwk_of(k.m, k.rec["priv"], kid=k.rec["kid"], use=k.rec["use"], alg=k.rec["alg"]) for k in ks]}).encode())
    return {"jku": site.base + place}


def lures(rng, mat, kid="", only=None):
    """Header members that lead to the key, which is really there"""
    m, site = POOL[mat], net.home()
    h = {}
    place = "%s-%s" % (mat, kid or "0")
    names = only or rng.sample(["jku", "x5u", "jwk", "x5c"], rng.randrange(1, 4))
    d = jwk_of(m, False, kid=kid)
    if "jku" in names:
        if "k-" + place not in site.pages:
            site.put("k-" + place, json.dumps({"keys": [d]}).encode())
        h["jku"] = site.base + "k-" + place
    if "jwk" in names:
        h["jwk"] = d
    if kty_of(m) != "oct":
        if "x5u" in names:
            if "c-" + place not in site.pages:
                site.put("c-" + place, pem(cert_of(rng, mat)))
            h["x5u"] = site.base + "c-" + place
        if "x5c" in names:
            h["x5c"] = [certs.x5c(cert_of(rng, mat))]
            if rng.random() < .5:
                h["x5t"] = certs.x5t(cert_of(rng, mat))
    return h
