"""Drives jwkest.jws and records what it does (events for spec/JwsTrace.tla)."""
import base64
import copy
import json
import struct

import absjws
import progs
from absjws import abstract, abstract_doc, hdr_texts, kid_text
from common import K, POOL, KEYS, Recorder, canon, foreign_key, fresh, jwk_of, kty_of, lib, matname, name, odd_text, pick, snap, u, weighted
from progs import EcMat, RsaMat, b64u

from lures import publish
from jwkest.jws import JWS, NoSuitableSigningKeys
from jwkest.jws import factory as jws_factory

ALGS = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512", "ES256", "ES384", "ES512", "PS256", "PS384", "PS512"]
RSA_S = ["r1024a", "r1024b", "r1024c", "r1031", "r1024e3"]      # cheap ones
RSA_BIG = ["r2048a", "r2048b", "r2055", "r3072"]
RSA_TINY = ["r512", "r768"]
EC = {"P-256": ["p256a", "p256b", "p256x0", "p256y0", "p256d0", "p256d2"],
      "P-384": ["p384a", "p384b", "p384x0", "p384y0", "p384d0", "p384d2"],
      "P-521": ["p521a", "p521b", "p521x0", "p521y0", "p521d0", "p521d2"]}
OCT = [n for n in POOL if n.startswith("o")]
ESC = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
KIDS = ["", "", "k1", "k2", "K1", "k11", "k1 ", "1", "\u00e9"]
HOWS = {"RSA": ["jwk", "jwk", "keyrep", "jwks", "native", "load"],
        "EC": ["jwk", "jwk", "keyrep", "jwks", "ints", "again"], "oct": ["jwk", "keyrep", "jwks", "key"]}


def mats_for(rng, alg, small=False):
    f = alg[0]
    if f == "H":
        return pick(rng, OCT) if rng.random() < .6 else fresh(rng, "oct")
    if f == "E":
        return pick(rng, EC[ESC[alg]]) if rng.random() < .7 else fresh(rng, "EC", ESC[alg])
    r = rng.random()
    if r > .95 and alg != "PS512":
        return fresh(rng, "RSA")
    if r < .1:
        return pick(rng, RSA_BIG)
    if alg == "PS512" and not small:      # needs 1034 bits
        return pick(rng, ["r1040", "r1034"])
    return pick(rng, RSA_S)


# ---------------------------------------------------------------------------
# payloads

def payload(rng):
    """(object to pass as msg, octets expected in the token)"""
    r = rng.randrange(16)
    if r == 0:
        m = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 3, 15, 16, 17, 31, 63, 64, 65, 200])))
        return m, m
    if r == 1:
        m = "".join(chr(rng.choice([0x20, 0x41, 0xe5, 0x3a9, 0x4e2d, 0x1f600, 0, 10])) for _ in range(rng.randrange(12)))
        return m, m.encode()
    if r == 2:
        v = {"iss": "a%d" % rng.randrange(99), "n": rng.randrange(10**9), "l": [1, None, True, "x"], "o": {"p": "\u00e9"}}
        return v, json.dumps(v, separators=(",", ":")).encode()
    if r == 3:
        m = pick(rng, ["123", "true", "null", '"str"', "[1,2]", "{}", "1.5", " {\"a\":1} ", "NaN", "{bad", "\ufeff{}", "1e400"])
        return m, m.encode()
    if r == 4:
        v = [1, "two", {"3": None}]
        return v, json.dumps(v, separators=(",", ":")).encode()
    if r == 5:
        m = pick(rng, [b"\xff\xfe\x00", b"\x80", b"\xc3\x28", b"\xff\xfe1\x00"])
        return m, m
    if r == 6:
        m = rng.randbytes(rng.choice([1000, 4096, 20000, 65536, 100001]))
        return m, m
    if r == 7:
        m = '{"a":1,"a":2,"sub":"dup%d"}' % rng.randrange(9)
        return m, m.encode()
    m = "payload number %d" % rng.randrange(10**6)
    if r in (8, 9):
        m = weighted(rng, [(odd_text(rng), 4), (m + odd_text(rng), 2), (odd_text(rng) + m, 1), (m[:3] + odd_text(rng) + m[3:], 1)])
        if rng.random() < .5:
            return m.encode(), m.encode()
    return m, m.encode()


def header_json(rng, h):
    """One of many JSON texts for a header"""
    r = rng.randrange(10)
    if r < 6:
        return json.dumps(h, separators=(",", ":")).encode()
    if r == 6:
        return json.dumps(h, indent=2).encode()
    if r == 7:
        return json.dumps(h, ensure_ascii=False, sort_keys=True).encode()
    if r in (8, 9):
        return (" " + json.dumps(h) + "\r\n\t").encode()
    items = list(h.items())
    rng.shuffle(items)
    return json.dumps(dict(items), separators=(" ,", ": ")).encode()


def make(alg, mat, hdr, raw):
    """A token signed by the specification's signer (the adversary may hold
    keys, and honest parties use other implementations)."""
    v = progs.run(absjws.PROG.jws_sign[alg], dict(hdr=hdr, pl=raw, key=mat))
    return b".".join([v["h64"], v["p64"], v["s64"]])


def raw_sign(alg, mat, h64, p64):
    prog = absjws.PROG.jws_sign[alg]
    v = progs.run(prog[2:], dict(h64=h64, p64=p64, key=mat))
    return b".".join([h64, p64, v["s64"]])


# ---------------------------------------------------------------------------
# tampering

def flip(rng, b):
    if not b:
        return b"\1"
    i = rng.randrange(len(b))
    return b[:i] + bytes([b[i] ^ (1 << rng.randrange(8))]) + b[i + 1:]


def tamper(rng, tok, mat, others):
    """Some other token made of a valid one; (description, bytes)"""
    h, p, s = tok.split(b".")
    dh, dp, ds = (progs.b64loose(x) for x in (h, p, s))
    hdr = json.loads(dh)
    alg = hdr.get("alg")

    def re_hdr(**ch):
        n = dict(hdr)
        for k, v in ch.items():
            if v is None and k != "alg":
                n.pop(k, None)
            else:
                n[k] = v
        return b64u(json.dumps(n, separators=(",", ":")).encode())

    def signed(nh, np=p):
        def f():
            try:
                return raw_sign(alg, mat, nh, np)
            except (progs.Fail, KeyError):
                return b".".join([nh, np, s])
        return f

    def resig(a, m=mat, nh=h):
        def f():
            try:
                return b".".join([nh, p, raw_sign(a, m, nh, p).split(b".")[2]])
            except (progs.Fail, KeyError):
                return b".".join([nh, p, b""])
        return f

    def exp(em):
        return lambda: b".".join([h, p, b64u(progs.i2b(pow(int.from_bytes(em, "big"), mat.d, mat.n), mat.size))])
    opts = []

    def o(d, *parts):
        opts.append((d, b".".join(parts)))
    o("payload bit", h, b64u(flip(rng, dp)), s)
    o("header bit", b64u(flip(rng, dh)), p, s)
    o("signature bit", h, p, b64u(flip(rng, ds)))
    o("signature first byte", h, p, b64u(bytes([ds[0] ^ 0x80]) + ds[1:]) if ds else s)
    o("signature last byte", h, p, b64u(ds[:-1] + bytes([ds[-1] ^ 1])) if ds else s)
    o("signature cut", h, p, b64u(ds[:rng.randrange(len(ds))] if ds else b""))
    o("signature short by one", h, p, b64u(ds[:-1]))
    o("signature tail only", h, p, b64u(ds[1:]))
    o("signature extended", h, p, b64u(ds + b"\0"))
    i = rng.randrange(len(ds) + 1)
    o("signature with more octets", h, p, b64u(ds[:i] + rng.randbytes(rng.choice([1, 1, 2, 3, 8, 32])) + ds[i:]))
    o("signature with fewer octets", h, p, b64u(ds[:i] + ds[i + rng.choice([1, 1, 2, 4]):] if i < len(ds) else ds[:-1]))
    o("signature prefixed", h, p, b64u(b"\0" + ds))
    o("signature doubled", h, p, b64u(ds + ds))
    o("signature empty", h, p, b"")
    o("signature zero", h, p, b64u(b"\0" * len(ds)))
    o("signature hex", h, p, b64u(ds.hex().encode()))
    o("payload empty", h, b"", s)
    o("header empty", b"", p, s)
    o("two parts", h, p)
    o("one part", h)
    o("four parts", h, p, s, b"")
    o("four parts 2", h, p, s, s)
    o("five parts", h, p, s, b"YQ", b"YQ")
    o("leading dot", b"", h, p, s)
    o("padding", h, p, s + b"=" * (-len(s) % 4 or 4))
    o("padding wrong", h, p, s + b"=" * ((-len(s) % 4) + 1))
    o("padded payload", h, p + b"=" * (-len(p) % 4), s)
    o("padded header", h + b"=" * (-len(h) % 4), p, s)
    o("newline", h, p, s + b"\n")
    o("space", h, p, b" " + s)
    o("standard alphabet", h, p, s.replace(b"-", b"+").replace(b"_", b"/"))
    o("loose bits", h, p, loosen(s))
    o("loose payload", h, loosen(p), s)
    o("illegal character", h, p[:1] + b"!" + p[1:], s)
    o("payload of length 1 mod 4", h, p + b"A" * ((1 - len(p)) % 4 or 4), s)
    o("alg none, signature kept", re_hdr(alg="none"), p, s)
    for a in ("none", "None", "nOnE", "NONE", None):
        o("alg %s" % a, re_hdr(alg=a), p, b"")
    nh = dict(hdr)
    nh.pop("alg", None)
    o("alg absent", b64u(json.dumps(nh).encode()), p, b"")
    opts.append(("alg absent, signed", signed(b64u(json.dumps(nh).encode()))))
    for a in ("HS999", "rs256", "RS256 ", " HS256", "ES256K", "HS", "", "EdDSA", "dir", "HS256\0"):
        opts.append(("alg %r" % a, signed(re_hdr(alg=a))))
    for a in (["RS256"], {"a": 1}, 256, True, 0):
        opts.append(("alg %r" % (a,), signed(re_hdr(alg=a))))
    for a in ALGS:
        if a != alg:
            o("alg changed to " + a, re_hdr(alg=a), p, s)
    for c in ([], ["exp"], None, "b64", ["b64"], 0):
        n = dict(hdr)
        n["crit"] = c
        opts.append(("crit %r" % (c,), signed(b64u(json.dumps(n).encode()))))
        if c == ["b64"]:
            n["b64"] = False
            opts.append(("crit b64", signed(b64u(json.dumps(n).encode()))))
    o("crit in none", b64u(b'{"alg":"none","crit":["x"]}'), p, b"")
    for kd in ("k1", "k2", "K1", "", None, 1, ["k1"], "k1 "):
        n = dict(hdr)
        n["kid"] = kd
        opts.append(("kid %r" % (kd,), signed(b64u(json.dumps(n).encode()))))
    for c in ("JWT", "jwt", "text/plain", "json", 5, None, ""):
        n = dict(hdr)
        n["cty"] = c
        opts.append(("cty %r" % (c,), signed(b64u(json.dumps(n).encode()))))
    for raw in (b"[]", b'"x"', b"5", b"null", b"", b"{", b"\xff\xfe", b'{"alg":"HS256"', b'{"alg":"HS256"}x',
                b"\xef\xbb\xbf" + dh):
        opts.append(("header %r" % raw[:20], signed(b64u(raw))))
    opts.append(("duplicate alg, none last", signed(b64u(dh[:-1] + b',"alg":"none"}'))))
    opts.append(("duplicate alg, none first", signed(b64u(b'{"alg":"none",' + dh.lstrip()[1:]))))
    opts.append(("duplicate crit", signed(b64u(dh[:-1] + b',"crit":["exp"]}'))))
    # jwk in a compact header is no key for its own signature
    other = POOL[pick(rng, others)]
    ofam = [a for a in ALGS if {"H": "oct", "R": "RSA", "P": "RSA", "E": "EC"}[a[0]] == kty_of(other)
            and (a[0] != "E" or ESC[a] == other.crv)]
    if ofam:
        oa = pick(rng, ofam)
        n = dict(hdr, alg=oa, jwk=jwk_of(other, False))
        opts.append(("other key, jwk in header", resig(oa, other, b64u(json.dumps(n).encode()))))
        n = dict(hdr, alg=oa)
        opts.append(("other key", resig(oa, other, b64u(json.dumps(n).encode()))))
    if isinstance(mat, RsaMat):
        x = int.from_bytes(ds, "big")
        if alg and alg[0] in "RP":
            for d, v in (("0", 0), ("1", 1), ("n-1", mat.n - 1), ("n", mat.n), ("n - s", mat.n - x), ("s + n", x + mat.n)):
                if v < 0:
                    continue
                try:
                    o("RSA integer " + d, h, p, b64u(progs.i2b(v, mat.size)))
                except OverflowError:
                    o("RSA integer " + d, h, p, b64u(progs.i2b(v)))
            sib = ("PS" if alg[0] == "R" else "RS") + alg[2:]
            opts.append(("padding of " + sib, resig(sib)))
            for b2 in ("256", "384", "512"):
                if alg[2:] != b2:
                    opts.append(("hash " + b2, resig(alg[:2] + b2)))
            if alg[0] == "R":
                f = forge_e3(mat, int(alg[2:]), h + b"." + p)
                if f:
                    o("e=3 forgery", h, p, b64u(f))
                for d, em in bad_emsa(mat, int(alg[2:]), h + b"." + p):
                    opts.append((d, exp(em)))
            if alg[0] == "P":
                for d, em in bad_pss(mat, int(alg[2:]), h + b"." + p):
                    v = int.from_bytes(em, "big")
                    if v < mat.n:
                        opts.append((d, exp(em)))
        # the public key as HMAC secret
        pems = [progs.rsaobj(RsaMat(mat.n, mat.e)).export_key(),
                progs.rsaobj(RsaMat(mat.n, mat.e)).export_key() + b"\n",
                progs.rsaobj(RsaMat(mat.n, mat.e)).export_key("DER"), progs.i2b(mat.n), b64u(progs.i2b(mat.n))]
        for q in pems:
            opts.append(("public key as HMAC secret", resig("HS256", q, re_hdr(alg="HS256"))))
    if isinstance(mat, EcMat):
        n, w = progs.ORDER[mat.crv], progs.WIDTH[mat.crv]
        if alg in ESC and len(ds) == 2 * w:
            r, s_ = int.from_bytes(ds[:w], "big"), int.from_bytes(ds[w:], "big")
            cand = [("r, N-s", r, n - s_), ("N-r, s", n - r, s_), ("s, r", s_, r), ("0, s", 0, s_), ("r, 0", r, 0),
                    ("0, 0", 0, 0), ("N, s", n, s_), ("r, N", r, n), ("r+N, s", r + n, s_), ("r, s+N", r, s_ + n),
                    ("r+1, s", r + 1, s_), ("1, 1", 1, 1), ("N-1, N-1", n - 1, n - 1), ("N, N", n, n)]
            for d, a, b in cand:
                if a < 256 ** w and b < 256 ** w:
                    o("ECDSA " + d, h, p, b64u(progs.i2b(a, w) + progs.i2b(b, w)))
            o("ECDSA DER", h, p, b64u(der(r, s_)))
            o("ECDSA wide", h, p, b64u(progs.i2b(r, w + 1) + progs.i2b(s_, w + 1)))
            if max(r, s_) < 256 ** (w - 1):
                o("ECDSA narrow", h, p, b64u(progs.i2b(r, w - 1) + progs.i2b(s_, w - 1)))
            o("ECDSA r only", h, p, b64u(ds[:w]))
            for _ in range(3):      # octets put in or taken out, on both sides or on one
                a = rng.randbytes(rng.choice([0, 1, 1, 2, w]))
                b = rng.randbytes(len(a) if rng.random() < .6 else rng.choice([0, 1, 2]))
                if a or b:
                    o("ECDSA stretched", h, p, b64u(pick(rng, [ds[:w] + a + ds[w:] + b, ds[:w] + a + ds[w:] + b, a + ds[:w] + b + ds[w:], a + ds + b])))
                a, b = rng.choice([0, 1, 2]), rng.choice([0, 1, 2])
                if a or b:
                    o("ECDSA shrunk", h, p, b64u(pick(rng, [ds[a:w] + ds[w + b:], ds[:w - a] + ds[w:2 * w - b]])))
            for a in ESC:
                if a != alg:
                    def f(a=a):
                        v = progs.run([["rs", "ecdsa", "#" + a[2:], "key", "si"]], dict(key=mat, si=h + b"." + p))["rs"]
                        return b".".join([h, p, b64u(progs.i2b(v[0], w) + progs.i2b(v[1], w))])
                    opts.append(("ECDSA hash of " + a, f))
        for q in (progs.i2b(mat.x), progs.i2b(mat.x, w) + progs.i2b(mat.y, w), b""):
            opts.append(("public key as HMAC secret", resig("HS256", q, re_hdr(alg="HS256"))))
    if isinstance(mat, bytes):
        for d, q in (("empty key", b""), ("key cut", mat[:-1]), ("key cased", mat.swapcase()), ("key + zero", mat + b"\0"),
                     ("key hashed", progs.HASH[256](mat).digest()), ("b64 of key", b64u(mat)), ("key + newline", mat + b"\n"),
                     ("key first block", mat[:64])):
            if q != mat:
                opts.append(("HMAC " + d, resig(alg, q)))
        for a in ("HS256", "HS384", "HS512"):
            if a != alg:
                opts.append(("HMAC hash of " + a, resig(a)))
    return opts


def loosen(s):
    """Same octets, non-zero unused bits"""
    A = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
    m = len(s) % 4
    if m not in (2, 3):
        return s
    i = A.index(s[-1:])
    return s[:-1] + A[i ^ 1:(i ^ 1) + 1]


def der(r, s):
    def i(x):
        b = progs.i2b(x)
        if b[0] & 0x80:
            b = b"\0" + b
        return b"\2" + bytes([len(b)]) + b
    b = i(r) + i(s)
    return (b"\x30" + bytes([len(b)]) if len(b) < 128 else b"\x30\x81" + bytes([len(b)])) + b


def forge_e3(mat, bits, m):
    """Bleichenbacher's forgery against verifiers that ignore what follows"""
    if mat.e != 3:
        return None
    t = bytes.fromhex(progs.PREFIX[bits]) + progs.HASH[bits](m).digest()
    pre = b"\0\1" + b"\xff" * 8 + b"\0" + t
    if len(pre) + 40 > mat.size:
        return None
    lo = int.from_bytes(pre + b"\0" * (mat.size - len(pre)), "big")
    hi = int.from_bytes(pre + b"\xff" * (mat.size - len(pre)), "big")
    a, b = 0, 1 << (mat.size * 8 // 3 + 2)
    while a < b:
        c = (a + b) // 2
        if c ** 3 < lo:
            a = c + 1
        else:
            b = c
    return progs.i2b(a, mat.size) if a ** 3 <= hi else None


def bad_emsa(mat, bits, m):
    """Almost EMSA-PKCS1-v1_5 encodings, properly exponentiated"""
    d = progs.HASH[bits](m).digest()
    t = bytes.fromhex(progs.PREFIX[bits]) + d
    k = mat.size

    def pad(t, bt=b"\1", f=b"\xff"):
        n = k - len(t) - 3
        return b"\0" + bt + f * n + b"\0" + t if n >= 8 else None
    out = [("no DigestInfo", pad(d)), ("block type 2", pad(t, b"\2")), ("block type 0", pad(t, b"\0", b"\0")),
           ("trailing garbage", (lambda e: e and e)(pad(t + b"\0"))),
           ("short padding", b"\0\1" + b"\xff" * 8 + b"\0" + t + b"\xab" * (k - len(t) - 11)),
           ("other padding octets", pad(t, b"\1", b"\xfe")),
           ("reversed digest", pad(bytes.fromhex(progs.PREFIX[bits]) + d[::-1]))]
    for b2 in (256, 384, 512):
        if b2 != bits:
            out.append(("DigestInfo of %d" % b2, pad(bytes.fromhex(progs.PREFIX[b2]) + progs.HASH[b2](m).digest())))
    # (DigestInfo without the NULL parameter is not here: RFC 8017 lets a
    # verifier take it)
    return [(a, b) for a, b in out if b is not None and len(b) == k]


def bad_pss(mat, bits, m, ):
    h = progs.HASH[bits]
    hl = bits // 8
    embits = mat.n.bit_length() - 1
    emlen = (embits + 7) // 8
    if emlen < 2 * hl + 2:
        return []

    def enc(salt, trail=b"\xbc", one=b"\1", body=None, fill=b"\0", mhash=None, pre=8):
        hh = h(b"\0" * pre + (mhash or h(m).digest()) + salt).digest()
        n = emlen - len(salt) - hl - 2
        if n < 0:
            return None
        db = (fill * n if fill == b"\0" else b"\0" + fill * (n - 1)) + one + salt
        db = progs.xor(db, progs.mgf1(hh, len(db), h))
        db = bytes([db[0] & (0xff >> (8 * emlen - embits))]) + db[1:]
        return db + hh + trail
    salt = b"s" * hl
    out = [("PSS trailer", enc(salt, trail=b"\xcc")), ("PSS without 01", enc(salt, one=b"\2")),
           ("PSS filled", enc(salt, fill=b"\1")), ("PSS short salt", enc(salt[:-1])), ("PSS no salt", enc(b"")),
           ("PSS long salt", enc(salt + b"s")), ("PSS other message", enc(salt, mhash=h(m + b"x").digest())),
           ("PSS prefix", enc(salt, pre=7))]
    return [(a, b) for a, b in out if b is not None]


# ---------------------------------------------------------------------------

class Obj(object):
    """A JWS object under observation"""
    count = 0

    url = ()

    def __init__(self, drv, msg=None, nokw=False, jwkkey=None, url=(), **kw):
        """url: the keys that lie where jku or x5u points to"""
        Obj.count += 1
        self.id = "o%d" % Obj.count
        self.drv = drv
        args = dict(kw)
        if jwkkey is not None:
            args["jwk"] = jwkkey.key
        self.jwk, self.url, self.at = jwkkey, list(url), kw
        self.o = JWS(msg, **args)
        self.emit_new(kw, bool(args))

    def emit_new(self, kw, any_kw):
        # alg defaults to 'none' as soon as any keyword is given
        pin = kw.get("alg", "none" if any_kw else "")
        self.drv.rec.emit({"op": "new", "obj": self.id, "pin": pin or "", "haspin": any_kw, "kid": kid_text(kw.get("kid")),
                           "haskid": "kid" in kw, "typ": kw.get("typ", "") or "",
                           "jwk": [self.jwk.rec] if self.jwk else [k.rec for k in self.url],
                           "url": bool(self.url and not self.jwk)}, {"new": kw, "jwk": self.jwk and self.jwk.rec})

    def there(self, ks):
        """Other keys lie there now"""
        publish(self.drv.rng, ks, self.at)
        self.url = list(ks)
        self.drv.rec.emit({"op": "there", "obj": self.id, "jwk": [k.rec for k in ks]}, {"at": self.at})


class Adopted(Obj):
    """An object that came from the factory"""

    def __init__(self, drv, o):
        Obj.count += 1
        self.id = "o%d" % Obj.count
        self.drv, self.o, self.jwk = drv, o, None
        self.emit_new({}, False)


class Driver(object):
    def __init__(self, rec, rng, prog):
        self.rec, self.rng = rec, rng
        absjws.PROG = prog

    def reset(self):
        self.rec.lure = False
        self.rec.emit({"op": "reset"})

    def container(self, ks):
        """The caller's keys: a list, a tuple or a KEYS object"""
        r = self.rng.randrange(4)
        lst = [k.key for k in ks]
        if r == 0:
            c = KEYS()
            for k in lst:
                c.append(k)
            return c
        return tuple(lst) if r == 1 else lst

    # -- verification -------------------------------------------------------
    def verify(self, obj, token, ks, none=False, sigalg=None, form=None, what="", docform=False):
        rng = self.rng
        op = "verify_json" if docform else "verify"
        form = form or pick(rng, ["compact", "verbose"])
        cont = self.container(ks) if ks else pick(rng, [None, []])
        mats = [k.rec["mat"] for k in ks] + [k.rec["mat"] for k in ([obj.jwk] if obj.jwk else obj.url)]
        before = snap(cont)
        msg0 = name(obj.o.msg) if getattr(obj.o, "msg", None) is not None else ""
        ev = {"op": op, "obj": obj.id, "keys": [k.rec for k in ks], "none": none, "sigalg": sigalg or ""}
        if docform:
            ev["doc"] = abstract_doc(token, mats)
            pays = {p for s in ev["doc"]["sigs"] for p in (s["tok"]["raw"], s["tok"]["text"], s["tok"]["json"])}
        else:
            ev["tok"] = abstract(token, mats)
            pays = {ev["tok"][f] for f in ("raw", "text", "json")}
        out = {"kind": "err", "nokey": False, "pay": "", "key": "", "leak": False, "cls": ""}
        try:
            if docform:
                v = lib(obj.o.verify_json, token, cont, allow_none=none, sigalg=sigalg)
            elif form == "compact":
                v = lib(obj.o.verify_compact, token, cont, allow_none=none, sigalg=sigalg)
            else:
                d = lib(obj.o.verify_compact_verbose, token, cont, allow_none=none, sigalg=sigalg)
                v = d["msg"]
                if "key" in d:
                    out["key"] = self.which(d["key"], ks, obj)
            out.update(kind="ok", pay=name(v))
        except Exception as e:
            m = getattr(obj.o, "msg", None)
            m1 = name(m) if m is not None else ""
            out.update(cls=type(e).__name__, nokey=isinstance(e, NoSuitableSigningKeys),
                       leak=bool(m1 and m1 != msg0 and m1 in pays))
        ev["out"] = out
        ev["same"] = snap(cont) == before
        self.rec.emit(ev, {"what": what, "token": token if isinstance(token, str) else token.decode("latin1"),
                           "form": form, "keys": [(k.rec["mat"], k.rec["kid"]) for k in ks], "got": out})
        return out["kind"] == "ok"

    def which(self, key, ks, obj):
        for k in ks + ([obj.jwk] if obj.jwk else []):
            if k.key is key:
                return k.rec["mat"]
        for k in obj.url if not ks else []:
            if key == k.key:        # an object of the library's making
                return k.rec["mat"]
        return "?"

    # -- signing ------------------------------------------------------------
    def sign(self, obj, msg, raw, ks, prot=None, what=""):
        cont = self.container(ks) if ks else pick(self.rng, [None, []])
        before, p0 = snap(cont), copy.deepcopy(prot)
        mats = [k.rec["mat"] for k in ks] + [k.rec["mat"] for k in ([obj.jwk] if obj.jwk else obj.url)]
        obj.o.msg = msg
        ev = {"op": "sign", "obj": obj.id, "keys": [k.rec for k in ks],
              "prot": {k: canon(v) if not isinstance(v, str) else '"%s"' % v for k, v in (prot or {}).items()},
              "msg": {"raw": name(raw) if raw is not None else "", "ok": raw is not None}}
        out, tok = {"kind": "err", "nokey": False, "cls": ""}, None
        try:
            tok = lib(obj.o.sign_compact, cont, protected=prot)
            out["kind"] = "tok"
        except Exception as e:
            out.update(cls=type(e).__name__, nokey=isinstance(e, NoSuitableSigningKeys))
        ev["out"] = out
        ev["tok"] = abstract(tok, mats) if tok is not None else absjws.NONE
        ev["hdr"] = hdr_texts(tok.split(".")[0].encode()) if tok is not None else {}
        ev["same"] = snap(cont) == before and prot == p0
        self.rec.emit(ev, {"what": what, "token": tok, "alg": obj.o._dict.get("alg") if hasattr(obj.o, "_dict") else "",
                           "keys": [(k.rec["mat"], k.rec["kid"]) for k in ks], "got": out})
        return tok

    def sign_json(self, obj, msg, raw, ks, headers, flatten, what=""):
        cont = self.container(ks) if ks else pick(self.rng, [None, []])
        before, h0 = snap(cont), copy.deepcopy(headers)
        obj.o.msg = msg
        mats = [k.rec["mat"] for k in ks]
        pairs = h0 if h0 is not None else [({}, None)]

        def txt(d):
            return {k: canon(v) if not isinstance(v, str) else '"%s"' % v for k, v in (d or {}).items()}
        ev = {"op": "sign_json", "obj": obj.id, "keys": [k.rec for k in ks], "flatten": flatten,
              "pairs": [{"prot": txt(p), "unprot": txt(q), "alg": (p or {}).get("alg", ""),
                         "kid": kid_text((p or {}).get("kid")), "haskid": "kid" in (p or {})} for p, q in pairs],
              "msg": {"raw": name(raw) if raw is not None else "", "ok": raw is not None}}
        out, doc, sigs, flat, syntax = {"kind": "err", "cls": ""}, None, [], False, True
        try:
            doc = lib(obj.o.sign_json, cont, headers=headers, flatten=flatten)
            out["kind"] = "ok"
        except Exception as e:
            out["cls"] = type(e).__name__
        if doc is not None:
            try:
                d = json.loads(doc)
                flat = "signatures" not in d
                entries = [{k: v for k, v in d.items() if k != "payload"}] if flat else d["signatures"]
                syntax = set(d) <= {"payload", "signatures", "signature", "protected", "header"} and all(
                    set(e) <= {"signature", "protected", "header"} for e in entries)
                for e in entries:
                    t = ".".join([e.get("protected", ""), d["payload"], e["signature"]])
                    sigs.append({"tok": abstract(t, mats), "hdr": hdr_texts(e.get("protected", "").encode()),
                                 "unprot": txt(e.get("header"))})
            except Exception:
                syntax = False
        # the documented completion of a protected header with alg
        comp = True
        if headers is not None:
            for (p0, q0), (p1, q1) in zip(h0, headers):
                if q0 != q1:
                    comp = False
                if (p0 is None) != (p1 is None):
                    comp = False
                elif p0 is not None and p1 != p0 and {k: v for k, v in p1.items() if k != "alg"} != p0:
                    comp = False
            comp = comp and len(h0) == len(headers)
        ev.update(out=out, sigs=sigs, flat=flat, syntax=syntax, same=snap(cont) == before and comp)
        self.rec.emit(ev, {"what": what, "doc": doc, "headers": h0, "got": out})
        return doc

    def classify(self, obj, token, what=""):
        """is_jws on this object"""
        typ, kid = jws_type(token)
        msg0 = getattr(obj.o, "msg", None)
        out = {"kind": "ok", "yes": False, "nopay": True, "cls": ""}
        try:
            out["yes"] = bool(lib(obj.o.is_jws, token))
        except Exception as e:
            out.update(kind="err", cls=type(e).__name__)
        out["nopay"] = getattr(obj.o, "msg", None) is msg0
        self.rec.emit({"op": "classify", "obj": obj.id, "type": typ, "kid": kid, "out": out, "same": True},
                      {"what": what, "token": token if isinstance(token, str) else token.decode("latin1"), "got": out})

    def factory(self, token, what=""):
        """jws.factory: a new object, or None"""
        typ, kid = jws_type(token)
        out = {"kind": "ok", "yes": False, "nopay": True, "cls": ""}
        o = None
        try:
            o = lib(jws_factory, token)
            out["yes"] = o is not None
        except Exception as e:
            out.update(kind="err", cls=type(e).__name__)
        ob = Adopted(self, o if o is not None else JWS())
        if o is not None:
            out["nopay"] = o.msg is None
        self.rec.emit({"op": "classify", "obj": ob.id, "type": typ, "kid": kid, "out": out, "same": True},
                      {"what": "factory " + what, "token": token if isinstance(token, str) else token.decode("latin1"),
                       "got": out})
        return ob if o is not None else None


def jws_type(token):
    """What the input is: "jws", "not", "either" (outside what the property
    says), "foreign" (not even a string); and the kid of a compact token"""
    if isinstance(token, bytes):
        try:
            text = token.decode("utf-8")
        except UnicodeDecodeError:
            return "either", ""
    else:
        text = token
    try:
        d = json.loads(text)
    except (ValueError, RecursionError):
        d = None
        is_json = False
    else:
        is_json = True
    if is_json:
        if isinstance(d, dict) and "payload" in d and ("signatures" in d or "signature" in d):
            return "jws", ""
        return "not", ""
    t = abstract(text, [])
    if t["parts"] != 3 or t["hdr"] != "obj" or "bad" in t["b64"]:
        return "not", ""
    if t["algk"] == "null":
        return "jws", t["kid"]
    if t["algk"] != "str":
        return "not", t["kid"]
    if t["alg"] in ALGS or t["alg"] == "none":
        return ("jws" if "loose" not in t["b64"] else "either"), t["kid"]
    return ("either" if t["none"] else "not"), t["kid"]
