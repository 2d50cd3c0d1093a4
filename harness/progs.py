"""Runs the programs of spec/Formats.tla with real primitives.

The primitives are taken from hashlib, hmac and Cryptodome (block ciphers and
OAEP) or written out below; nothing here comes from the code under test.
"""
import base64
import hashlib
import hmac
import os
import re
import struct
import zlib

from Cryptodome.Cipher import AES, PKCS1_OAEP
from Cryptodome.Hash import SHA1, SHA256
from Cryptodome.PublicKey import ECC, RSA


class Fail(Exception):
    """The program rejects its input."""


HASH = {160: hashlib.sha1, 256: hashlib.sha256, 384: hashlib.sha384, 512: hashlib.sha512}
PREFIX = {256: "3031300d060960864801650304020105000420",
          384: "3041300d060960864801650304020205000430",
          512: "3051300d060960864801650304020305000440"}
B64 = re.compile(rb"[A-Za-z0-9_-]*\Z")


class RsaMat(object):
    kty = "RSA"

    def __init__(self, n, e, d=None, p=None, q=None):
        self.n, self.e, self.d, self.p, self.q = n, e, d, p, q
        self.size = (n.bit_length() + 7) // 8


class EcMat(object):
    kty = "EC"

    def __init__(self, crv, x, y, d=None):
        self.crv, self.x, self.y, self.d = crv, x, y, d


ORDER = {c: int(ECC._curves[c].order) for c in ("P-256", "P-384", "P-521")}
PRIME = {c: int(ECC._curves[c].p) for c in ("P-256", "P-384", "P-521")}
CB = {c: int(ECC._curves[c].b) for c in ("P-256", "P-384", "P-521")}
GEN = {c: (int(ECC._curves[c].Gx), int(ECC._curves[c].Gy)) for c in ("P-256", "P-384", "P-521")}
WIDTH = {"P-256": 32, "P-384": 48, "P-521": 66}


def on_curve(crv, x, y):
    p = PRIME[crv]
    return 0 <= x < p and 0 <= y < p and (y * y - x * x * x + 3 * x - CB[crv]) % p == 0


def ec_point(crv, x, y):
    return ECC.EccPoint(x, y, curve=crv)


def i2b(x, n=None):
    if n is None:
        n = max(1, (x.bit_length() + 7) // 8)
    return x.to_bytes(n, "big")


def b64u(b):
    return base64.urlsafe_b64encode(b).rstrip(b"=")


def b64d(s):
    """Strict base64url without padding (RFC 4648 section 5)."""
    if not B64.match(s) or len(s) % 4 == 1:
        raise Fail("b64")
    d = base64.urlsafe_b64decode(s + b"=" * (-len(s) % 4))
    if b64u(d) != s:
        raise Fail("b64")
    return d


def b64loose(s):
    """What a tolerant decoder makes of it, or None"""
    t = s.rstrip(b"=")
    if not B64.match(t) or len(t) % 4 == 1:
        return None
    if len(s) != len(t) and len(s) - len(t) > 2 + 4 * 64:
        return None
    return base64.urlsafe_b64decode(t + b"=" * (-len(t) % 4))


def bits2int(h, n):
    x = int.from_bytes(h, "big")
    d = len(h) * 8 - n.bit_length()
    return x >> d if d > 0 else x


def emsa15(bits, m, size):
    t = bytes.fromhex(PREFIX[bits]) + HASH[bits](m).digest()
    if size < len(t) + 11:
        raise Fail("modulus too short")
    return b"\0\1" + b"\xff" * (size - len(t) - 3) + b"\0" + t


def mgf1(seed, n, h):
    out = b""
    for i in range((n + h().digest_size - 1) // h().digest_size):
        out += h(seed + struct.pack(">I", i)).digest()
    return out[:n]


def xor(a, b):
    if len(a) != len(b):
        raise Fail("xor")
    return bytes(x ^ y for x, y in zip(a, b))


def rsa15sign(bits, key, m):
    return i2b(pow(int.from_bytes(emsa15(bits, m, key.size), "big"), key.d, key.n), key.size)


def rsa15ok(bits, key, m, sig):
    if not isinstance(key, RsaMat) or len(sig) != key.size:
        raise Fail("sig")
    s = int.from_bytes(sig, "big")
    if s >= key.n or i2b(pow(s, key.e, key.n), key.size) != emsa15(bits, m, key.size):
        raise Fail("sig")


def psssign(bits, key, m):
    h = HASH[bits]
    hl = bits // 8
    embits = key.n.bit_length() - 1
    emlen = (embits + 7) // 8
    if emlen < 2 * hl + 2:
        raise Fail("modulus too short")
    salt = os.urandom(hl)
    hh = h(b"\0" * 8 + h(m).digest() + salt).digest()
    db = b"\0" * (emlen - 2 * hl - 2) + b"\1" + salt
    mdb = bytearray(xor(db, mgf1(hh, len(db), h)))
    mdb[0] &= 0xff >> (8 * emlen - embits)
    em = bytes(mdb) + hh + b"\xbc"
    return i2b(pow(int.from_bytes(em, "big"), key.d, key.n), key.size)


def pssok(bits, key, m, sig):
    h = HASH[bits]
    hl = bits // 8
    if not isinstance(key, RsaMat) or len(sig) != key.size:
        raise Fail("sig")
    s = int.from_bytes(sig, "big")
    embits = key.n.bit_length() - 1
    emlen = (embits + 7) // 8
    if s >= key.n or emlen < 2 * hl + 2:
        raise Fail("sig")
    em = pow(s, key.e, key.n)
    if em.bit_length() > 8 * emlen:
        raise Fail("sig")
    em = i2b(em, emlen)
    mdb, hh = em[:emlen - hl - 1], em[emlen - hl - 1:-1]
    top = 0xff >> (8 * emlen - embits)
    if em[-1] != 0xbc or mdb[0] & ~top & 0xff:
        raise Fail("sig")
    db = bytearray(xor(mdb, mgf1(hh, len(mdb), h)))
    db[0] &= top
    pad, salt = db[:emlen - 2 * hl - 2], bytes(db[emlen - 2 * hl - 1:])
    if any(pad) or db[emlen - 2 * hl - 2] != 1:
        raise Fail("sig")
    if h(b"\0" * 8 + h(m).digest() + salt).digest() != hh:
        raise Fail("sig")


def ecdsa(bits, key, m):
    n = ORDER[key.crv]
    e = bits2int(HASH[bits](m).digest(), n)
    while True:
        k = int.from_bytes(os.urandom(80), "big") % (n - 1) + 1
        r = int((ec_point(key.crv, *GEN[key.crv]) * k).x) % n
        s = pow(k, -1, n) * (e + r * key.d) % n
        if r and s:
            return r, s


def ecdsaok(bits, key, m, r, s):
    if not isinstance(key, EcMat):
        raise Fail("sig")
    n = ORDER[key.crv]
    if not (0 < r < n and 0 < s < n):
        raise Fail("sig")
    e = bits2int(HASH[bits](m).digest(), n)
    w = pow(s, -1, n)
    pt = ec_point(key.crv, *GEN[key.crv]) * (e * w % n) + ec_point(key.crv, key.x, key.y) * (r * w % n)
    if pt.is_point_at_infinity() or int(pt.x) % n != r:
        raise Fail("sig")


def ecdh(a, b):
    if isinstance(a, EcMat):
        d, (crv, x, y) = a.d, b
    else:
        d, (crv, x, y) = a, (b.crv, b.x, b.y)
    if isinstance(a, EcMat) and a.crv != crv or not on_curve(crv, x, y):
        raise Fail("point")
    return i2b(int((ec_point(crv, x, y) * d).x), WIDTH[crv])


RSAOBJ = {}


def rsaobj(k):
    i = (k.n, k.e, k.d)
    if i not in RSAOBJ:
        RSAOBJ[i] = RSA.construct((k.n, k.e) if k.d is None else (k.n, k.e, k.d, k.p, k.q), consistency_check=False)
    return RSAOBJ[i]


def rsa15enc(k, m):
    n = k.size - 3 - len(m)
    if n < 8:
        raise Fail("too long")
    ps = bytes(b or 1 for b in os.urandom(n))
    return i2b(pow(int.from_bytes(b"\0\2" + ps + b"\0" + m, "big"), k.e, k.n), k.size)


def rsa15dec(k, c):
    if not isinstance(k, RsaMat) or len(c) != k.size:
        raise Fail("rsa")
    x = int.from_bytes(c, "big")
    if x >= k.n:
        raise Fail("rsa")
    em = i2b(pow(x, k.d, k.n), k.size)
    i = em.find(b"\0", 2)
    if em[:2] != b"\0\2" or i < 10:
        raise Fail("rsa")
    return em[i + 1:]


def oaep(hh):
    def enc(k, m):
        try:
            return PKCS1_OAEP.new(rsaobj(k), hh).encrypt(m)
        except ValueError:
            raise Fail("oaep")

    def dec(k, c):
        if not isinstance(k, RsaMat):
            raise Fail("oaep")
        try:
            return PKCS1_OAEP.new(rsaobj(k), hh).decrypt(c)
        except (ValueError, TypeError):
            raise Fail("oaep")
    return enc, dec


def aes(k):
    if not isinstance(k, bytes) or len(k) not in (16, 24, 32):
        raise Fail("aes key")
    return AES.new(k, AES.MODE_ECB)


def ctr(k, c0, m):
    e = aes(k)
    pre, n = c0[:12], int.from_bytes(c0[12:], "big")
    ks = e.encrypt(b"".join(pre + struct.pack(">I", (n + i) & 0xffffffff)
                            for i in range((len(m) + 15) // 16))) if m else b""
    return xor(ks[:len(m)], m)


def ghash(h, data):
    h = int.from_bytes(h, "big")
    # table of h * (nibble at position j from the left)
    R = 0xE1 << 120
    pw = []
    v = h
    for i in range(128):
        pw.append(v)
        v = (v >> 1) ^ (R if v & 1 else 0)
    y = 0
    for i in range(0, len(data), 16):
        y ^= int.from_bytes(data[i:i + 16], "big")
        z = 0
        for j in range(128):
            if (y >> (127 - j)) & 1:
                z ^= pw[j]
        y = z
    return i2b(y, 16)


def need(c, what="check"):
    if not c:
        raise Fail(what)


def cbc(enc):
    def f(k, iv, m):
        aes(k)
        if len(m) % 16 or len(iv) != 16:
            raise Fail("cbc")
        c = AES.new(k, AES.MODE_CBC, iv)
        return c.encrypt(m) if enc else c.decrypt(m)
    return f


def unpkcs7(m):
    need(m and 1 <= m[-1] <= 16 and m[-m[-1]:] == bytes([m[-1]]) * m[-1], "padding")
    return m[:-m[-1]]


def unpadz(p, m):
    need(not any(p[m:]), "padding")
    return p[:m]


def deflate(m):
    o = zlib.compressobj(9, zlib.DEFLATED, -15)
    return o.compress(m) + o.flush()


def inflate(m):
    o = zlib.decompressobj(-15)
    try:
        r = o.decompress(m) + o.flush()
    except zlib.error:
        raise Fail("inflate")
    need(o.eof, "inflate")
    return r


def blk(x, i):
    need(len(x) >= 8 * (i + 1), "blk")
    return x[8 * i:8 * i + 8]


def do_hmac(bits, k, m):
    need(isinstance(k, bytes), "key")
    return hmac.new(k, m, HASH[bits]).digest()


def eq(a, b):
    need(a == b, "eq")
    return a


def lenis(a, n):
    need(isinstance(a, bytes) and len(a) == n, "len")
    return a


def ecb(enc):
    def f(k, x):
        need(len(x) == 16, "block")
        return aes(k).encrypt(x) if enc else aes(k).decrypt(x)
    return f


OAEP1, OAEP256 = oaep(SHA1), oaep(SHA256)
OPS = {
    "id": lambda a: a, "cat": lambda *a: b"".join(a), "cat8": lambda *a: b"".join(a),
    "b64u": b64u, "b64d": b64d,
    "take": lambda a, n: a[:n], "drop": lambda a, n: a[n:], "blk": blk,
    "lenis": lenis, "eq": eq, "rep": lambda b, n: bytes([b]) * n, "xor": xor,
    "be32": lambda n: struct.pack(">I", n), "be64": lambda n: struct.pack(">Q", n),
    "be32len": lambda a: struct.pack(">I", len(a)), "be64bits": lambda a: struct.pack(">Q", 8 * len(a)),
    "hash": lambda b, m: HASH[b](m).digest(), "hmac": do_hmac,
    "pkcs7": lambda m: m + bytes([16 - len(m) % 16]) * (16 - len(m) % 16), "unpkcs7": unpkcs7,
    "cbcenc": cbc(True), "cbcdec": cbc(False), "ecb": ecb(True), "ecbdec": ecb(False), "ctr": ctr,
    "padz": lambda m, n: m + b"\0" * (n - len(m)), "unpadz": unpadz,
    "pad16": lambda m: m + b"\0" * (-len(m) % 16), "ghash": ghash,
    "rsa15sign": rsa15sign, "rsa15ok": rsa15ok, "psssign": psssign, "pssok": pssok,
    "ecdsa": ecdsa, "fst": lambda a: a[0], "snd": lambda a: a[1], "ecdsaok": ecdsaok,
    "i2osp": i2b, "i2ospmin": i2b, "os2ip": lambda b: int.from_bytes(b, "big"),
    "rsa15enc": rsa15enc, "rsa15dec": rsa15dec, "oaep1enc": OAEP1[0], "oaep1dec": OAEP1[1],
    "oaep256enc": OAEP256[0], "oaep256dec": OAEP256[1], "ecdh": ecdh,
    "deflate": deflate, "inflate": inflate,
}


def lit(a):
    if a[:1] == "#":
        return int(a[1:])
    if a[:1] == "'":
        return a[1:].encode()
    return None


def run(prog, env, **more):
    """Executes a program; returns all named values or raises Fail."""
    v = dict(env)
    v.update(more)
    for ins in prog:
        args = []
        for a in ins[2:]:
            x = lit(a)
            args.append(v[a] if x is None else x)
        try:
            v[ins[0]] = OPS[ins[1]](*args)
        except Fail:
            raise
        except (OverflowError, ValueError, IndexError, struct.error) as e:
            raise Fail("%s: %r" % (ins[1], e))
    return v


class Programs(object):
    def __init__(self, d, ec):
        self.ec = ec
        self.jws_sign, self.jws_verify = d["jws_sign"], d["jws_verify"]
        self.jwe_enc = {n: e for n, e, _ in d["jwe"]}
        self.jwe_dec = {n: x for n, _, x in d["jwe"]}
        self.content = d["content"]
        self.kw = {int(n): (w, u) for n, w, u in d["kw"]}
        self.kwpad = {int(n): (w, u) for n, w, u in d["kwpad"]}
        self.pbk = d["pbk"]
        self.raw_sign, self.raw_verify, self.oidc = d["raw_sign"], d["raw_verify"], d["oidc_key"]
        self.kdf = {int(n): p for n, p in d["kdf"]}
        self.rsa_member, self.ec_member, self.oct_member = d["rsa_member"], d["ec_member"], d["oct_member"]
        self.tp = {"RSA|%s" % n: p for n, p in d["tp_rsa"]}
        self.tp.update({"oct|%s" % n: p for n, p in d["tp_oct"]})
        self.tp.update({"EC|%s" % n: p for n, p in d["tp_ec"]})
        self.tp_nokty = {"EC|%s" % n: p for n, p in d["tp_ec_nokty"]}
        self.left_hash = {int(n): p for n, p in d["left_hash"]}

    def jwe_name(self, alg, enc, zip_=False, raw=False):
        return "%s|%s|%s|%s" % (alg, enc, "DEF" if zip_ else "", "raw" if raw else "")


def load(path):
    import json
    with open(path) as f:
        return Programs(*json.load(f))
