"""Scenarios for the JWE driver."""
import hashlib
import hmac
import json
import os
import struct
import zlib

from Cryptodome.Cipher import AES

import absjwe
import progs
from lures import lures, publish
from absjwe import EC as EC_ALGS, ENCS, KW, RSA as RSA_ALGS, TYPE
from common import K, POOL, foreign_key, fresh, in_threads, jwk_of, kty_of, odd_text, pick, preempt, u, weighted
from drv_jwe import ALGS, JWE_RSA, JWE_SYM, Driver, Obj, b64u
from drv_jws import EC, HOWS, KIDS, OCT, RSA_S, RSA_TINY, flip, header_json, loosen, make as make_jws, mats_for as jws_mat
from progs import EcMat, RsaMat
from replay_jwe import Replay

CBC = ENCS[:3]
CEKLEN = dict(zip(ENCS, (32, 48, 64, 16, 24, 32)))
RSA_D = ["r1024a", "r1024b", "r1031", "r1024e3", "r2048a"]
ECS = ["P-256", "P-256", "P-256", "P-384", "P-521"]
ALL_EC = [m for v in EC.values() for m in v]


def an_enc(rng):
    return pick(rng, CBC) if rng.random() < .86 else pick(rng, ENCS[3:])


def mat_for(rng, alg, enc="A128CBC-HS256"):
    if alg in RSA_ALGS:
        if alg == "RSA-OAEP-256" and CEKLEN[enc] > 62:
            return pick(rng, ["r2048a", "r2048b", "r1040"])
        return pick(rng, RSA_D) if rng.random() < .6 else fresh(rng, "RSA", least=8 * (CEKLEN[enc] + {"RSA1_5": 11, "RSA-OAEP": 42, "RSA-OAEP-256": 66}[alg]))
    if alg in KW:
        return pick(rng, OCT) if rng.random() < .6 else fresh(rng, "oct")
    crv = pick(rng, ECS)
    return pick(rng, EC[crv]) if rng.random() < .7 else fresh(rng, "EC", crv)


def message(rng):
    r = rng.randrange(10)
    if r == 0:
        n = rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100])
        return bytes(rng.randrange(256) for _ in range(n))
    if r == 1:
        return "t\u00e9xt \u4e2d %d" % rng.randrange(1000) if rng.random() < .4 else odd_text(rng)
    if r == 2:
        return json.dumps({"iss": "x", "n": rng.randrange(10**6)})
    if r == 3:
        return b"\0" * rng.choice([1, 16, 40])
    if r == 4:
        return b"\x10" * 16 if rng.random() < .5 else b"\1"
    if r == 6 and rng.random() < .25:
        return rng.choice(["", b""])
    if r == 5 and rng.random() < .3:
        return rng.randbytes(rng.choice([1000, 5000, 65535, 65536, 70001])) if rng.random() < .7 else rng.choice(["a", "\0", "\u00e9"]) * rng.choice([5000, 300000])
    return "message %d" % rng.randrange(10**6)


def octets(m):
    return m.encode() if isinstance(m, str) else m


# ---------------------------------------------------------------------------
# a sender that can do everything wrong

def kw_wrap(kek, p, iv=b"\xa6" * 8):
    n = len(p) // 8
    r, a, e = [p[8 * i:8 * i + 8] for i in range(n)], iv, AES.new(kek, AES.MODE_ECB)
    for t in range(1, 6 * n + 1):
        i = (t - 1) % n
        b = e.encrypt(a + r[i])
        a, r[i] = progs.xor(b[:8], struct.pack(">Q", t)), b[8:]
    return a + b"".join(r)


def kdf(z, algid, apu, apv, bits):
    o = b"".join(struct.pack(">I", len(x)) + x for x in (algid, apu, apv)) + struct.pack(">I", bits)
    d, c = b"", 0
    while len(d) * 8 < bits:
        c += 1
        d += hashlib.sha256(struct.pack(">I", c) + z + o).digest()
    return d[:bits // 8]


def seal(enc, cek, iv, aad, pt, padded=None):
    """ciphertext, tag - with whatever key and IV is given"""
    if enc in CBC:
        h = len(cek) // 2
        bits = {32: 256, 48: 384, 64: 512}.get(len(cek), 256)
        m = padded if padded is not None else pt + bytes([16 - len(pt) % 16]) * (16 - len(pt) % 16)
        ct = AES.new(cek[h:], AES.MODE_CBC, (iv + b"\0" * 16)[:16]).encrypt(m) if m else b""
        t = hmac.new(cek[:h], aad + iv + ct + struct.pack(">Q", 8 * len(aad)), progs.HASH[bits]).digest()
        return ct, t[:h]
    c = AES.new(cek, AES.MODE_GCM, nonce=iv or b"\0")
    c.update(aad)
    return c.encrypt_and_digest(pt)


def naive_mul(p, pt, k):
    """Multiplication with the curve's a and any b - what an implementation
    does that does not look whether the point is on the curve"""
    def add(a, b):
        if a is None:
            return b
        if b is None:
            return a
        if a[0] == b[0]:
            if (a[1] + b[1]) % p == 0:
                return None
            m = (3 * a[0] * a[0] - 3) * pow(2 * a[1], -1, p) % p
        else:
            m = (b[1] - a[1]) * pow(b[0] - a[0], -1, p) % p
        x = (m * m - a[0] - b[0]) % p
        return x, (m * (a[0] - x) - a[1]) % p
    r = None
    while k:
        if k & 1:
            r = add(r, pt)
        pt = add(pt, pt)
        k >>= 1
    return r


class Sender(object):
    """An independent sender.  All members can be overridden."""

    def __init__(self, rng, alg, enc, mat, msg, hdr=None, zip_=False, **over):
        self.rng, self.alg, self.enc, self.mat, self.msg, self.zip = rng, alg, enc, mat, msg, zip_
        self.hdr = {"alg": alg, "enc": enc}
        if zip_:
            self.hdr["zip"] = "DEF"
        self.hdr.update(hdr or {})
        self.cek = os.urandom(CEKLEN.get(enc, 32))
        self.iv = os.urandom(16 if enc in CBC else 12)
        self.kwiv, self.ek, self.padded, self.pt, self.hdrb = b"\xa6" * 8, None, None, None, None
        self.algid, self.keyalg, self.z, self.wrapcek, self.kek = None, alg, None, None, None
        self.apu, self.apv = b"", b""
        if alg in EC_ALGS:
            crv = mat.crv
            self.epriv = rng.randrange(1, progs.ORDER[crv])
            pt = progs.ec_point(crv, *progs.GEN[crv]) * self.epriv
            self.point = (int(pt.x), int(pt.y))
            self.crv = crv
            if rng.random() < .6:
                self.apu, self.apv = (os.urandom(rng.choice(l + [255, 256, 300, 70000][:4 if rng.random() < .1 else 0]))
                                      for l in ([0, 1, 5, 16], [0, 3, 16, 40]))
                if self.apu or rng.random() < .5:
                    self.hdr["apu"] = u(self.apu)
                if self.apv or rng.random() < .5:
                    self.hdr["apv"] = u(self.apv)
        self.__dict__.update(over)

    def header(self):
        if self.hdrb is not None:
            return self.hdrb
        h = dict(self.hdr)
        if self.alg in EC_ALGS and "epk" not in h:
            w = progs.WIDTH[self.crv]
            h["epk"] = {"kty": "EC", "crv": self.crv, "x": u(progs.i2b(self.point[0], w)), "y": u(progs.i2b(self.point[1], w))}
        return header_json(self.rng, {k: v for k, v in h.items() if v is not ...})

    def parts(self):
        a, m = self.keyalg, self.mat
        cek, ek = self.cek, b""
        if a in RSA_ALGS:
            ek = {"RSA1_5": progs.rsa15enc, "RSA-OAEP": progs.OAEP1[0], "RSA-OAEP-256": progs.OAEP256[0]}[a](m, cek)
        elif a in KW:
            kek = self.kek or hashlib.sha256(m).digest()[:int(a[1:4]) // 8]
            ek = kw_wrap(kek, cek, self.kwiv)
        elif a in EC_ALGS:
            z = self.z
            if z is None:
                z = progs.ecdh(self.epriv, m)
            if a == "ECDH-ES":
                cek = kdf(z, (self.algid or self.enc).encode(), self.apu, self.apv, 8 * CEKLEN[self.enc])
            else:
                kek = kdf(z, (self.algid or a).encode(), self.apu, self.apv, int(a[-5:-2]))
                ek = kw_wrap(kek, cek, self.kwiv)
        if self.ek is not None:
            ek = self.ek
        h64 = b64u(self.header())
        pt = self.pt if self.pt is not None else progs.deflate(self.msg) if self.zip else self.msg
        ct, tag = seal(self.enc, self.wrapcek or cek, self.iv, h64, pt, self.padded)
        self.realcek = cek
        return [h64, b64u(ek), b64u(self.iv), b64u(ct), b64u(tag)]

    def token(self):
        return b".".join(self.parts())


class Scen(object):
    MIX = {
        "C07": [("roundtrip", 6), ("crowd", .4), ("interop", 4), ("history", 1), ("rawlevel", 1.5)],
        "C08": [("forged", 7), ("recall", .7), ("interop", 1), ("wrong", 1.5), ("history", 1), ("rawlevel", 1), ("garbage", .5), ("guessed", .6)],
        "C09": [("ecforged", 6), ("ecround", 3), ("forged_ec", 1)],
        "C04": [("selection", 8), ("wrong", 1), ("crowd", 1)],
        "C06": [("history", 8), ("forged", 1), ("recall", 5), ("threads", 3), ("preempted", 3)],
        "C10": [("reuse", 6), ("preempted", 1)],
        "C12": [("roundtrip", 1)],
        "C20": [("astray", 2), ("pointed", 1)],
        "C19": [("classify", 1)],
    }

    def __init__(self, rec, rng, prog):
        self.d = Driver(rec, rng, prog)
        self.rng, self.rec = rng, rec

    def steps(self, prop, behaviours, lists):
        mix = self.MIX[prop]
        if behaviours:
            rp = Replay(self, lists)
            for b in behaviours:
                yield lambda b=b: rp.run(b)
        while True:
            yield getattr(self, weighted(self.rng, mix))

    # -- keys -----------------------------------------------------------------
    def key(self, mat, private=True, kid="", use="", alg=""):
        return K(mat, private, pick(self.rng, HOWS[kty_of(POOL[mat])]), kid, use, alg)

    def decoys(self, alg, n, private=True, kid=""):
        rng, out = self.rng, []
        for _ in range(n):
            r = rng.randrange(10)
            if r < 5:
                m = mat_for(rng, alg)
            elif r == 5:
                m = pick(rng, ALL_EC)
            elif r == 6:
                m = pick(rng, OCT)
            elif r == 7:
                out.append(foreign_key(pick(rng, ["foo", "RSB", ""]), pick(rng, KIDS)))
                continue
            else:
                m = pick(rng, RSA_D if private else RSA_D + RSA_TINY)
            out.append(self.key(m, private or kty_of(POOL[m]) == "oct", pick(rng, KIDS + [kid, kid]), pick(rng, ["", "", "", "enc", "sig"]),
                                pick(rng, ["", "", "", alg, pick(rng, list(ALGS)), "RS256"])))
        return out

    def place(self, key, decoys):
        ks = list(decoys)
        ks.insert(self.rng.randrange(len(ks) + 1), key)
        return ks

    def kwargs(self, alg, enc):
        rng = self.rng
        kw = {"alg": alg, "enc": enc}
        if rng.random() < .3:
            kw["zip"] = "DEF"
        if rng.random() < .15:
            kw["typ"] = pick(rng, ["JWE", "JWT"])
        if rng.random() < .15:
            kw["cty"] = pick(rng, ["JWT", "text/plain"])
        if rng.random() < .04:          # headers whose length takes more than one octet, or two, to write down
            kw["cty"] = "x" * rng.choice([300, 700, 1100, 7000, 50000])
        return kw

    # -- scenarios ------------------------------------------------------------
    def roundtrip(self, alg=None):
        d, rng = self.d, self.rng
        d.reset()
        alg = alg or pick(rng, list(ALGS))
        enc = an_enc(rng)
        mat = mat_for(rng, alg, enc)
        kid = pick(rng, KIDS)
        kw = self.kwargs(alg, enc)
        if rng.random() < .1 and kid:
            kw["kid"] = kid
        pubkey = self.key(mat, rng.random() < .3, kid, pick(rng, ["", "enc"]), pick(rng, ["", alg]))
        ks = [pubkey] if rng.random() < .5 else self.place(pubkey, self.decoys(alg, rng.randrange(1, 4), False, kid))
        msg = message(rng)
        cek = iv = b""
        if rng.random() < .1:
            iv = os.urandom(16 if enc in CBC else 12)
        if rng.random() < .1:
            cek = os.urandom(CEKLEN[enc])
        if alg in EC_ALGS and rng.random() < .2:
            kw["epk"] = self.key(fresh(rng, "EC", POOL[mat].crv), True)
            ks = [pubkey]               # whose curve it is of
        if alg in EC_ALGS and rng.random() < .2:
            kw["apu"] = b64u(rng.randbytes(rng.choice([0, 1, 5, 16, 256, 300, 70000])))
            if rng.random() < .6:
                kw["apu"] = kw["apu"].decode()
        ob = Obj(d, msg, **kw)
        tok = d.encrypt(ob, msg, ks, cek, iv, what="roundtrip")
        if tok is None:
            return
        vk = self.key(mat, True, kid, pick(rng, ["", "enc"]), pick(rng, ["", alg]))
        vks = self.place(vk, self.decoys(alg, rng.randrange(3), True, kid))
        d.decrypt(Obj(d) if rng.random() < .7 else ob, tok, vks, want=pick(rng, [None, None, alg]),
                  cek=cek if cek and rng.random() < .5 else None, what="roundtrip")

    def ecround(self):
        self.roundtrip(pick(self.rng, list(EC_ALGS)))

    def interop(self, alg=None):
        d, rng = self.d, self.rng
        d.reset()
        alg = alg or pick(rng, list(ALGS))
        enc = an_enc(rng)
        mat = mat_for(rng, alg, enc)
        kid = pick(rng, KIDS)
        h = {}
        for n, v in (("kid", kid), ("typ", pick(rng, ["JWE", "JWT", 5])), ("cty", "JWT"), ("x", [1]), ("jku", "https://a/b"), ("\u00e9", None)):
            if rng.random() < .25 and v != "":
                h[n] = v
        if rng.random() < .05:
            h["y"] = "x" * rng.choice([300, 700, 1100, 7000, 50000])
        z = rng.random() < .35
        s = Sender(rng, alg, enc, POOL[mat], octets(message(rng)), h, z)
        if z and rng.random() < .5:
            c = zlib.compressobj(rng.randrange(10), zlib.DEFLATED, -15)
            s.pt = c.compress(s.msg) + c.flush()
        if rng.random() < .15:
            s.iv = b"\0" * rng.choice([1, 8, len(s.iv)]) + s.iv
            s.iv = s.iv[:16 if enc in CBC else 12]
        tok = s.token()
        # the specification's own program has to agree that this is a token
        vk = self.key(mat, True, kid, pick(rng, ["", "enc"]), pick(rng, ["", alg]))
        vks = self.place(vk, self.decoys(alg, rng.randrange(4), True, kid))
        d.decrypt(pick(rng, [Obj(d), Obj(d, alg=alg), Obj(d, alg=alg, enc=enc)]), tok.decode(), vks, want=pick(rng, [None, None, alg]),
                  cek=s.realcek if rng.random() < .1 else os.urandom(CEKLEN[enc]) if rng.random() < .05 else None, what="interop")

    def variants(self, s, other=None):
        """(description, token) made of a sender's token"""
        rng = self.rng
        p = s.parts()
        raw = [progs.b64loose(x) for x in p]
        out = []

        def o(d, q):
            out.append((d, lambda: b".".join(q)))

        def rep(i, b):
            return p[:i] + [b64u(b)] + p[i + 1:]

        def re(d, **ch):
            def f():
                t = Sender.__new__(Sender)
                t.__dict__.update(s.__dict__)
                t.hdr = dict(s.hdr)
                t.__dict__.update({k: v for k, v in ch.items() if k != "h"})
                for k, v in ch.get("h", {}).items():
                    t.hdr[k] = v
                return t.token()
            out.append((d, f))
        names = ["header", "encrypted key", "IV", "ciphertext", "tag"]
        for i in range(1, 5):
            o(names[i] + " bit", rep(i, flip(rng, raw[i])))
            o(names[i] + " empty", rep(i, b""))
            o(names[i] + " short", rep(i, raw[i][:-1]))
            o(names[i] + " head gone", rep(i, raw[i][1:]))
            o(names[i] + " extended", rep(i, raw[i] + b"\0"))
            o(names[i] + " prefixed", rep(i, b"\0" + raw[i]))
            o(names[i] + " zeros", rep(i, b"\0" * len(raw[i])))
            o(names[i] + " loose", p[:i] + [loosen(p[i])] + p[i + 1:])
            o(names[i] + " padded", p[:i] + [p[i] + b"=" * (-len(p[i]) % 4)] + p[i + 1:])
            o(names[i] + " illegal", p[:i] + [p[i] + b"!"] + p[i + 1:])
            o(names[i] + " odd length", p[:i] + [p[i] + b"A" * ((1 - len(p[i])) % 4 or 4)] + p[i + 1:])
        o("header bit", rep(0, flip(rng, raw[0])))
        o("header loose", [loosen(p[0])] + p[1:])
        o("header padded", [p[0] + b"=" * (-len(p[0]) % 4)] + p[1:])
        o("header rewritten", rep(0, json.dumps(json.loads(raw[0]), indent=1).encode()))
        o("header with a blank", rep(0, raw[0] + b" "))
        o("header member added", rep(0, json.dumps(dict(json.loads(raw[0]), x=1)).encode()))
        o("header not JSON", rep(0, raw[0][:-1]))
        for n in (1, 4, 8, len(raw[4]) // 2, len(raw[4]) - 4):
            o("tag cut to %d" % n, rep(4, raw[4][:n]))
        o("tag last bit", rep(4, raw[4][:-1] + bytes([raw[4][-1] ^ 1])))
        o("tag first bit", rep(4, bytes([raw[4][0] ^ 128]) + raw[4][1:]))
        if s.enc in CBC:
            h = len(s.realcek) // 2
            full = hmac.new(s.realcek[:h], p[0] + raw[2] + raw[3] + struct.pack(">Q", 8 * len(p[0])), progs.HASH[h * 16]).digest()
            o("tag in full", rep(4, full))
            o("tag second half", rep(4, full[h:]))
            for d, m in (("without length", p[0] + raw[2] + raw[3]), ("length in octets", p[0] + raw[2] + raw[3] + struct.pack(">Q", len(p[0]))),
                         ("without AAD", raw[2] + raw[3] + struct.pack(">Q", 0)), ("without IV", p[0] + raw[3] + struct.pack(">Q", 8 * len(p[0]))),
                         ("length 32 bits", p[0] + raw[2] + raw[3] + struct.pack(">I", 8 * len(p[0])))):
                o("tag " + d, rep(4, hmac.new(s.realcek[:h], m, progs.HASH[h * 16]).digest()[:h]))
            # AAD/IV/ciphertext boundary moved with the length field kept
            o("block moved to IV", p[:2] + [b64u(raw[2] + raw[3][:16]), b64u(raw[3][16:]), p[4]])
            for d, m in (("padding 0", b"x" * 15 + b"\0"), ("padding 17", b"\x11" * 32), ("padding uneven", b"x" * 13 + b"\1\2\3"),
                         ("padding 16 of 15", b"x" + b"\x10" * 15), ("no padding", b"x" * 16), ("padding 255", b"\xff" * 16),
                         ("padding 4 uneven", b"x" * 12 + b"\4\4\5\4"), ("padding block missing", b"")):
                re(d, padded=m)
            re("whole blocks of padding", padded=b"\x10" * 16)
        o("blocks swapped", rep(3, raw[3][16:] + raw[3][:16]))
        o("ciphertext cut by a block", rep(3, raw[3][:-16]))
        o("ciphertext doubled", rep(3, raw[3] * 2))
        o("IV and tag swapped", [p[0], p[1], p[4], p[3], p[2]])
        o("one part", p[:1])
        o("three parts", p[:3])
        o("four parts", p[:4])
        o("four parts without key", [p[0]] + p[2:])
        o("six parts", p + [b""])
        o("six parts 2", p + [p[4]])
        o("six parts 3", p[:4] + [b""] + p[4:])
        o("seven parts", p + [b"YQ", b"YQ"])
        o("newline", p[:4] + [p[4] + b"\n"])
        # what a sender with the right key may do wrong
        n = CEKLEN[s.enc]
        for l in {16, 24, 32, 40, 48, 64, 8} - {n}:
            if s.enc in CBC and l in (32, 48, 64) or s.enc not in CBC and l in (16, 24, 32):
                re("content key of %d" % l, cek=os.urandom(l))
        if s.alg in EC_ALGS[1:] or s.alg in KW:
            re("wrapped key without integrity value", kwiv=b"\0" * 8)
            re("wrapped key integrity value off", kwiv=b"\xa6" * 7 + b"\xa7")
            re("wrapped key alternative IV", kwiv=b"\xa6\x59\x59\xa6" + struct.pack(">I", n))
            o("wrapped key one block more", rep(1, raw[1] + raw[1][-8:]))
            o("wrapped key one block less", rep(1, raw[1][:-8]))
            o("content key in the open", rep(1, s.realcek))
        for l in (8, 12, 16, 0, 17, 24):
            if l != len(s.iv):
                re("IV of %d" % l, iv=os.urandom(l))
        re("crit", h={"crit": pick(rng, [["exp"], [], None, "b64"])})
        re("crit exp", h={"crit": ["exp"], "exp": 1})
        for z in ("def", "GZ", "DEF ", True, 1, ["DEF"]):
            re("zip %r" % (z,), h={"zip": z})
        for z in (None, "", 0, False):
            re("zip %r" % (z,), h={"zip": z})
        re("zip announced", h={"zip": "DEF"}, zip=False)
        re("zip not announced", h={"zip": ...}, zip=True)
        re("zlib format", h={"zip": "DEF"}, pt=zlib.compress(s.msg))
        re("deflate cut", h={"zip": "DEF"}, pt=progs.deflate(s.msg + b"x" * 40)[:-3])
        re("deflate empty", h={"zip": "DEF"}, pt=b"")
        for a in ALGS + ("dir", "none", "", "RSA-OAEP-512", "A64KW", "A128GCMKW", "AKW", "ECDH-ES+A512KW", "rsa1_5", "RS256", "HS256",
                         "A128KW ", "PBES2-HS256+A128KW", "RSA", "ECDH-ES+XKW", "ECDH-ESA128KW"):
            if a != s.alg:
                re("alg says " + a, h={"alg": a})
        for a in (None, 5, [s.alg], {"a": 1}, ...):
            re("alg %r" % (a,), h={"alg": a})
        for a in ENCS + ("A128CBC", "A128CBC-HS512", "none", "", "A512GCM", "a128gcm", "A128CBC+HS256"):
            if a != s.enc:
                re("enc says " + a, h={"enc": a})
                if a in CEKLEN and CEKLEN[a] == n:
                    re("enc says %s, content key kept" % a, h={"enc": a})
        for a in (None, 5, [s.enc], ...):
            re("enc %r" % (a,), h={"enc": a})
        for k in ("k1", "k2", "", None, 7):
            re("kid %r" % (k,), h={"kid": k})
        if s.alg in RSA_ALGS:
            for a in RSA_ALGS:
                if a != s.alg:
                    re("key encrypted by " + a, keyalg=a)
            m, size = s.mat, s.mat.size
            v = int.from_bytes(raw[1], "big") + m.n
            if v < 256 ** size:
                o("RSA integer + n", rep(1, progs.i2b(v, size)))
            o("RSA integer 0", rep(1, b"\0" * size))
            o("RSA integer 1", rep(1, progs.i2b(1, size)))
            o("RSA integer n-1", rep(1, progs.i2b(m.n - 1, size)))
            o("RSA wide", rep(1, b"\0" + raw[1]))

            def em(b):
                x = int.from_bytes(b, "big")
                return progs.i2b(pow(x, m.e, m.n), size)
            f = b"\xaa" * (size - 3 - n)
            if len(f) >= 8:
                bad = [("block type 1", b"\0\1" + f), ("block type 0", b"\0\0" + f), ("padding short", b"\0\2" + f[:7] + b"\0" * (len(f) - 7)),
                       ("separator missing", None), ("leading octet", b"\1\2" + f)]
                for d, b in bad:
                    x = (b + b"\0" + s.cek) if b else (b"\0\2" + b"\xaa" * (size - 2))
                    if int.from_bytes(x, "big") < m.n:
                        re("RSA " + d, ek=em(x))
            re("RSA no padding", ek=em(b"\0" * (size - n) + s.cek))
            re("content key in the open", ek=s.cek)
            re("empty key, zero content key", ek=b"", cek=b"\0" * n)
        if s.alg in KW:
            m = s.mat
            for a in KW:
                if a != s.alg:
                    re("kek of " + a, keyalg=a)
            l = int(s.alg[1:4]) // 8
            if len(m) >= l:
                re("kek is the secret, cut", kek=m[:l])
            re("kek of SHA-512", kek=hashlib.sha512(m).digest()[:l])
            re("kek zero", kek=b"\0" * l)
            re("kek second half", kek=hashlib.sha256(m).digest()[-l:] if l < 32 else hashlib.sha1(m).digest() + b"\0" * 12)
        if s.alg in EC_ALGS:
            out += self.ec_variants(s, p, raw, re, o, rep)
        if other is not None:
            q = other.parts()
            for i in range(5):
                o(names[i] + " of another token", p[:i] + [q[i]] + p[i + 1:])
            o("two parts of another token", p[:2] + q[2:4] + p[4:])
            o("content of another token", p[:2] + q[2:])
        return out

    def ec_variants(self, s, p, raw, re, o, rep):
        rng, crv = self.rng, s.crv
        P, w, m = progs.PRIME[crv], progs.WIDTH[crv], s.mat
        x, y = s.point

        def jwk(x_, y_, c=crv, w_=None, **more):
            d = {"kty": "EC", "crv": c, "x": u(progs.i2b(x_, w_ or progs.WIDTH[c])), "y": u(progs.i2b(y_, w_ or progs.WIDTH[c]))}
            d.update(more)
            return {k: v for k, v in d.items() if v is not ...}

        def z_of(pt, prime=P, width=w):
            r = naive_mul(prime, pt, m.d)
            return progs.i2b(r[0], width) if r else b"\0" * width
        # points off the curve, and the key an unsuspecting recipient would derive
        for d, pt in (("y+1", (x, (y + 1) % P)), ("x+1", ((x + 1) % P, y)), ("random", (rng.randrange(P), rng.randrange(P))),
                      ("0,0", (0, 0)), ("0,1", (0, 1)), ("y=0", (x, 0)), ("1,1", (1, 1))):
            if progs.on_curve(crv, *pt):
                continue
            try:
                z = z_of(pt)
            except (ValueError, ZeroDivisionError):
                z = b"\0" * w
            re("epk off the curve: " + d, h={"epk": jwk(*pt)}, z=z)
        # unreduced coordinates
        for d, pt in (("x+p", (x + P, y)), ("y+p", (x, y + P))):
            if max(pt) < 256 ** w:
                re("epk " + d, h={"epk": jwk(*pt)})
            re("epk wide " + d, h={"epk": jwk(pt[0], pt[1], w_=w + 1)})
        re("epk negated", h={"epk": jwk(x, P - y)})
        # a point of another curve
        for c in EC:
            if c == crv:
                continue
            e2 = rng.randrange(1, progs.ORDER[c])
            q = progs.ec_point(c, *progs.GEN[c]) * e2
            q = int(q.x), int(q.y)
            try:
                z2 = naive_mul(progs.PRIME[c], q, m.d)
            except ValueError:
                continue
            if z2:
                re("epk of curve " + c, h={"epk": jwk(*q, c=c)}, z=progs.i2b(z2[0], progs.WIDTH[c]))
                re("epk of curve %s, said to be %s" % (c, crv), h={"epk": jwk(q[0] % P, q[1] % P)}, z=z_of((q[0] % P, q[1] % P)))
            if x < 256 ** progs.WIDTH[c] and y < 256 ** progs.WIDTH[c]:
                re("epk said to be of " + c, h={"epk": jwk(x, y, c=c)})
        for d, e in (("missing", ...), ("null", None), ("list", [1]), ("string", json.dumps(jwk(x, y))), ("empty", {}),
                     ("without crv", jwk(x, y, crv=...)), ("without x", jwk(x, y, x=...)), ("without y", jwk(x, y, y=...)),
                     ("curve unknown", jwk(x, y, crv="P-257")), ("curve lower case", jwk(x, y, crv=crv.lower())), ("curve null", jwk(x, y, crv=None)),
                     ("curve number", jwk(x, y, crv=256)), ("kty oct", jwk(x, y, kty="oct")), ("without kty", jwk(x, y, kty=...)),
                     ("x not base64", jwk(x, y, x="!!")), ("x empty", jwk(x, y, x="")), ("x number", jwk(x, y, x=x)), ("private", jwk(x, y, d=u(progs.i2b(s.epriv, w)))),
                     ("with kid", jwk(x, y, kid="e1", use="enc")), ("narrow", jwk(x, y, x=u(progs.i2b(x)))),
                     ("recipient's own", jwk(m.x, m.y))):
            re("epk " + d, h={"epk": e})
        re("epk recipient's own key, right", h={"epk": jwk(m.x, m.y)}, epriv=m.d)
        # epk is a generator (private value 1) or close to the order
        for d in (1, 2, progs.ORDER[crv] - 1, progs.ORDER[crv] - 2):
            pt = progs.ec_point(crv, *progs.GEN[crv]) * d
            re("ephemeral private value %s" % (d if d < 3 else "N-%d" % (progs.ORDER[crv] - d)), epriv=d, h={"epk": jwk(int(pt.x), int(pt.y))})
        for d, v in (("apu", "apu"), ("apv", "apv")):
            re(d + " dropped", h={v: ...})
            for b in (None, 5, ["YQ"], "!", "YQ==", "A"):
                re("%s %r" % (d, b), h={v: b})
            re(d + " other", h={v: u(b"other")})
        re("apu and apv swapped", h={"apu": u(s.apv), "apv": u(s.apu)})
        re("apu text taken as it is", h={"apu": u(b"Alice")}, apu=u(b"Alice").encode())
        re("apu and apv", h={"apu": u(b"Alice"), "apv": u(b"Bob")}, apu=b"Alice", apv=b"Bob")
        re("algorithm id of enc" if s.alg != "ECDH-ES" else "algorithm id of alg", algid=s.enc if s.alg != "ECDH-ES" else s.alg)
        if "+" in s.alg:
            re("algorithm id short", algid=s.alg.split("+")[1])
            for a in EC_ALGS[1:]:
                if a != s.alg:
                    re("wrapped as " + a, keyalg=a)
        else:
            o("ECDH-ES with an encrypted key", rep(1, b"x" * 40))
            re("ECDH-ES with its key wrapped", ek=kw_wrap(b"k" * 16, b"c" * 32))
        re("shared secret trimmed", z=progs.ecdh(s.epriv, m).lstrip(b"\0"))
        re("shared secret hashed", z=hashlib.sha256(progs.ecdh(s.epriv, m)).digest())
        return []

    def forged(self, algs=ALGS, only=None, count=9):
        d, rng = self.d, self.rng
        d.reset()
        alg, enc = pick(rng, list(algs)), an_enc(rng)
        mat = mat_for(rng, alg, enc)
        kid = pick(rng, ["", "", "k1"])
        h = {"kid": kid} if kid and rng.random() < .5 else {}
        msg = octets(message(rng))[:100]
        s = Sender(rng, alg, enc, POOL[mat], msg, h, rng.random() < .2)
        s2 = Sender(rng, alg, enc, POOL[mat], octets(message(rng))[:100], h)
        vs = self.variants(s, s2)
        if only:
            vs = [v for v in vs if only(v[0])]
        key = self.key(mat, True, kid)
        ks = [key] if rng.random() < .7 else self.place(key, self.decoys(alg, rng.randrange(1, 3), True, kid))
        ob = Obj(d) if rng.random() < .8 else Obj(d, alg=alg, enc=enc)
        for what, f in rng.sample(vs, min(count if enc in CBC else 3, len(vs))):
            try:
                tok = f()
            except (progs.Fail, ValueError, OverflowError):
                continue
            d.decrypt(ob, tok.decode("latin1"), ks, what=what, cek=s.realcek if rng.random() < .07 else None)
            if rng.random() < .3:
                ob = Obj(d)

    def guessed(self):
        """An encrypted key that means nothing, and the content under a key
        that an implementation might fall back to"""
        d, rng = self.d, self.rng
        d.reset()
        alg = pick(rng, ["RSA1_5", "RSA1_5", "RSA1_5"] + list(ALGS))
        enc = an_enc(rng)
        mat = mat_for(rng, alg, enc)
        n = CEKLEN[enc]
        s = Sender(rng, alg, enc, POOL[mat], b"guessed", {})
        size = len(progs.b64loose(s.parts()[1]))
        key = self.key(mat, True)
        for cek in (b"\0" * n, b"\xff" * n, b"\1" * n, b"\xa6" * n, bytes(range(n)), (b"\0" * n + s.cek)[:n]):
            if alg == "ECDH-ES":
                s.wrapcek = cek
            else:
                s.cek, s.ek = cek, pick(rng, [b"\1" * size, b"\0" * size, b"\0" + rng.randbytes(max(size, 1) - 1), b"", rng.randbytes(n), cek])
            try:
                tok = s.token()
            except (progs.Fail, ValueError):
                continue
            d.decrypt(Obj(d), tok.decode("latin1"), [key], what="guessed content key")

    def ecforged(self):
        self.forged(EC_ALGS, lambda n: n.startswith(("epk", "apu", "apv", "ephemeral", "algorithm", "shared", "ECDH", "wrapped as")), 8)

    def forged_ec(self):
        self.forged(EC_ALGS, None, 6)

    def wrong(self):
        """A good token, other keys and other demands"""
        d, rng = self.d, self.rng
        d.reset()
        alg, enc = pick(rng, list(ALGS)), an_enc(rng)
        mat = mat_for(rng, alg, enc)
        kid = pick(rng, KIDS)
        s = Sender(rng, alg, enc, POOL[mat], b"secret %d" % rng.randrange(999), {"kid": kid} if kid and rng.random() < .5 else {})
        tok = s.token().decode()
        r = rng.randrange(7)
        if r == 0:
            d.decrypt(Obj(d), tok, self.decoys(alg, rng.randrange(1, 4), True, kid), what="wrong keys")
        elif r == 1:
            d.decrypt(Obj(d), tok, [], what="no keys")
        elif r == 2:
            d.decrypt(Obj(d), tok, [self.key(mat, True, kid)], want=pick(rng, list(ALGS) + ["dir", "x"]), what="demand")
        elif r == 3 and kty_of(POOL[mat]) != "oct":
            d.decrypt(Obj(d), tok, [self.key(mat, False, kid)], what="public key only")
        elif r == 4:
            d.decrypt(Obj(d), tok, self.decoys(alg, rng.randrange(2), True), cek=os.urandom(CEKLEN[enc]), what="wrong content key")
        elif r == 5:
            d.decrypt(Obj(d), tok, self.decoys(alg, rng.randrange(2), True), cek=s.realcek, want=pick(rng, [None, alg, "RSA1_5"]),
                      what="content key")
        else:
            f = d.factory(tok)
            if f:
                d.decrypt(f, tok, [self.key(mat, True, pick(rng, [kid, kid, "zz"]))], usetoken=rng.random() < .5, what="factory object")

    def selection(self):
        """Which keys are used"""
        d, rng = self.d, self.rng
        d.reset()
        alg, enc = pick(rng, list(ALGS)), pick(rng, CBC)
        n = rng.randrange(1, 5)
        mats = [mat_for(rng, alg, enc) for _ in range(2)]
        kids = ["", "k1", "k2"]
        kw = {"alg": alg, "enc": enc}
        if rng.random() < .5:
            kw["kid"] = pick(rng, ["k1", "k2", "zz"])

        def keys(private):
            out = []
            for _ in range(n):
                if rng.random() < .25:
                    out += self.decoys(alg, 1, private)
                else:
                    m = pick(rng, mats)
                    out.append(self.key(m, private, pick(rng, kids), pick(rng, ["", "", "enc", "sig"]), pick(rng, ["", "", alg, pick(rng, list(ALGS))])))
            return out
        if rng.random() < .5:
            d.encrypt(Obj(d, "m", **kw), "m %d" % rng.randrange(99), keys(False), what="selection")
        s = Sender(rng, alg, enc, POOL[pick(rng, mats)], b"selected", {"kid": pick(rng, kids)} if rng.random() < .4 else {})
        o = Obj(d, **kw) if rng.random() < .5 else Obj(d)
        d.decrypt(o, s.token().decode(), keys(True), what="selection")
        if rng.random() < .2:
            bad = dict(kw, alg=pick(rng, ["dir", "none", "RS256", "", "A128GCMKW", "xyz"]), enc=pick(rng, [enc, enc, "A128CBC", "none"]))
            d.encrypt(Obj(d, "m", **bad), "m", keys(False), what="unknown method")
        if rng.random() < .1:
            bad = dict(kw, enc=pick(rng, ["A128CBC", "none", "", "HS256"]))
            d.encrypt(Obj(d, "m", **bad), "m", keys(False), what="unknown enc")
        if rng.random() < .1:
            d.encrypt(Obj(d, "m", **dict(kw, zip=pick(rng, ["GZ", "def"]))), "m", keys(False), what="unknown zip")
        if rng.random() < .2:
            k = self.key(pick(rng, mats), True, pick(rng, kids))
            d.decrypt(Obj(d, jwkkey=k, **kw), s.token().decode(), [], what="object's jwk")

    def recall(self):
        """A call that succeeds, then calls that differ from it in one thing"""
        d, rng = self.d, self.rng
        d.reset()
        alg, enc = pick(rng, list(ALGS)), pick(rng, CBC)
        if alg in KW:
            mat, twin = rng.sample(["o32", "o32b", "o32e"], 2)
        elif alg in EC_ALGS:
            mat, twin = pick(rng, [("p256a", "p256b"), ("p384a", "p384b"), ("p521a", "p521b")])
        else:
            mat, twin = rng.sample(["r1024a", "r1024b", "r1024c"], 2)
            if alg == "RSA-OAEP-256":
                mat, twin = "r2048a", "r2048b"
        kid = pick(rng, ["", "k1"])
        h = {"kid": kid} if kid and rng.random() < .5 else {}
        a = Sender(rng, alg, enc, POOL[mat], b"remembered %d" % rng.randrange(9), h)
        b = Sender(rng, alg, enc, POOL[mat], b"another", h)
        c = Sender(rng, alg, enc, POOL[twin], b"for the twin", h)
        base, other, foreign = [x.token().decode().split(".") for x in (a, b, c)]
        right, wrong = self.key(mat, True, kid), self.key(twin, True, kid)
        variants = [(base, [wrong])] * 8 + [(base, []), (base, [wrong, right]), (other, [right]), (other, [wrong]), (foreign, [right]), (foreign, [wrong]),
                    (base, [self.key(mat, True, "other")]), (base, [self.key(mat, True, kid, "", "RS256")])]
        for i in range(5):
            for o in (other, foreign):
                variants.append((base[:i] + o[i:i + 1] + base[i + 1:], [right]))
                variants.append((o[:i] + base[i:i + 1] + o[i + 1:], [right, wrong]))
        for i in range(1, 5):
            if base[i]:
                variants.append((base[:i] + [u(flip(rng, progs.b64loose(base[i].encode())))] + base[i + 1:], [right]))
        ob = Obj(d)
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < .3:
                ob = Obj(d)
            seq = [(base, [right])] + [pick(rng, variants) for _ in range(rng.choice([1, 1, 2, 3]))]
            for n, (t, ks) in enumerate(seq):
                if n and rng.random() < .3:
                    ob = Obj(d)
                d.decrypt(ob, ".".join(t), ks, want=pick(rng, [None, None, None, alg, "RSA1_5"]) if n else None, what="recall %d" % n)

    def threads(self):
        """Objects in several threads, sharing nothing but keys"""
        d, rng = self.d, self.rng
        d.reset()
        enc = an_enc(rng)
        algs = [pick(rng, list(ALGS)) for _ in range(rng.choice([1, 2]))]
        keys, toks = [], []
        for a in algs:
            for j in range(2):
                m = mat_for(rng, a, enc)
                k = self.key(m, True, pick(rng, ["", "k" + m]))
                keys.append((a, k))
                h = {"kid": k.rec["kid"]} if k.rec["kid"] and rng.random() < .5 else {}
                toks.append((k, Sender(rng, a, enc, POOL[m], b"thread payload %d" % j, h).token().decode().split(".")))

        def work(me):
            ob = Obj(d)
            for _ in range(4):
                r = rng.random()
                if r < .35:
                    a, k = pick(rng, keys)
                    t = d.encrypt(Obj(d, "m", alg=a, enc=enc), "thread %d message %d" % (me, rng.randrange(9)), [k], what="threads")
                    if t:
                        d.decrypt(ob, t, [k], what="threads own")
                    continue
                k, t = pick(rng, toks)
                t = list(t)
                if rng.random() < .4:
                    i = rng.randrange(5)
                    t[i] = pick(rng, toks)[1][i]
                ks = [k] if rng.random() < .5 else [x[1] for x in rng.sample(keys, rng.randrange(1, len(keys) + 1))]
                d.decrypt(ob, ".".join(t), ks, what="threads")
                if rng.random() < .3:
                    ob = Obj(d)
        in_threads([lambda me=me: work(me) for me in range(rng.choice([2, 3, 4]))])

    def preempted(self):
        """A call that another one gets in the way of"""
        d, rng = self.d, self.rng
        d.reset()
        enc, alg = an_enc(rng), pick(rng, list(ALGS))
        keys, toks = [], []
        for j in range(2):
            m = mat_for(rng, alg, enc)
            k = self.key(m, True, pick(rng, ["", "k" + m]))
            keys.append(k)
            for i in range(2):
                h = {"kid": k.rec["kid"]} if k.rec["kid"] and rng.random() < .5 else {}
                toks.append((k, Sender(rng, alg, enc, POOL[m], b"thread payload %d %d" % (j, i), h).token().decode().split(".")))
        k, t = pick(rng, toks)

        def call():
            r = rng.random()
            if r < .3:
                eo, ek, msg = Obj(d, "m", alg=alg, enc=enc), pick(rng, keys), "message %d" % rng.randrange(9)
                return lambda: d.encrypt(eo, msg, [ek], what="preempted")
            x = list(t)
            if r < .65:
                i = rng.randrange(5)
                x[i] = pick(rng, toks)[1][i]
            elif r < .75:
                x = pick(rng, toks)[1]
            ob, ks = Obj(d), [k] if rng.random() < .7 else pick(rng, [[pick(rng, keys)], list(keys)])
            return lambda: d.decrypt(ob, ".".join(x), ks, what="preempted")
        slow = enc in ENCS[3:] or alg in EC_ALGS
        preempt(rng, call(), [call() for _ in range(3 if slow else 10)])

    def astray(self):
        """Tokens that say where to find a key"""
        d, rng = self.d, self.rng
        d.reset()
        self.rec.lure = True
        alg = pick(rng, list(ALGS))
        enc = an_enc(rng)
        mine, his = mat_for(rng, alg, enc), mat_for(rng, alg, enc)
        kid = pick(rng, KIDS)
        at = lures(rng, his, kid)
        msg = message(rng)
        if rng.random() < .5:
            kw = self.kwargs(alg, enc)
            at.pop("jwk", None)
            kw.update(at)
            ob = Obj(d, msg, **kw)
            ks = self.place(self.key(mine, rng.random() < .3, kid if rng.random() < .5 else ""), self.decoys(alg, rng.randrange(2), False, kid))
            tok = d.encrypt(ob, msg, ks, what="with directions")
        else:
            s = Sender(rng, alg, enc, POOL[pick(rng, [mine, mine, his])], octets(msg), at, rng.random() < .2)
            tok = s.token().decode()
        if tok is None:
            return
        vk = self.key(mine, True, kid if rng.random() < .5 else "")
        d.decrypt(Obj(d), tok, self.place(vk, self.decoys(alg, rng.randrange(3), True, kid)), what="a token that offers a key")

    def pointed(self):
        """Objects whose maker said where the keys are to be found"""
        d, rng = self.d, self.rng
        d.reset()
        self.rec.lure = True
        alg = pick(rng, list(ALGS))
        enc = an_enc(rng)
        mine, his = mat_for(rng, alg, enc), mat_for(rng, alg, enc)
        kid = pick(rng, KIDS)
        key = self.key(mine, True, kid)
        pub = self.key(mine, kty_of(POOL[mine]) == "oct", kid)
        msg = message(rng)

        def some(key, private):
            return [k for k in self.place(key, self.decoys(alg, rng.randrange(2), private, kid)) if k.rec["mat"] != "foreign"]
        ks = some(pub, False)
        ob = Obj(d, msg, url=ks, **dict(self.kwargs(alg, enc), **publish(rng, ks)))
        toks = []
        for n in range(rng.randrange(1, 3)):
            if n:
                ob.there(pick(rng, [lambda: [], lambda: some(self.key(his, kty_of(POOL[his]) == "oct", kid), False)])() if "jku" in ob.at else [])
            toks.append(d.encrypt(ob, msg, pick(rng, [[], [], [self.key(his, True)]]), what="pointed"))
        ks = some(key, True)
        ob = Obj(d, url=ks, **publish(rng, ks))
        for tok in toks:
            if tok:
                d.decrypt(ob, tok, pick(rng, [[], [], [self.key(his, True)], [key]]), what="pointed")
                if rng.random() < .4:
                    ob.there(pick(rng, [lambda: [], lambda: some(self.key(his, True, kid), True)])() if "jku" in ob.at else [])
                    d.decrypt(ob, tok, pick(rng, [[], [], [key]]), what="pointed")

    def crowd(self):
        """One key among very many"""
        d, rng = self.d, self.rng
        d.reset()
        alg, enc = pick(rng, list(ALGS)), pick(rng, CBC)
        mat = mat_for(rng, alg, enc)
        kid = pick(rng, KIDS)
        n = rng.choice([8, 12, 20, 35])
        same = [m for m in (mat_for(rng, alg) for _ in range(6)) if m != mat]
        others = [self.key(pick(rng, same), True, pick(rng, KIDS)) if same and rng.random() < .8 else
                  self.decoys(alg, 1, True, kid)[0] for _ in range(n)]
        others = [k for k in others if k.rec["mat"] != mat or rng.random() < .2]
        s = Sender(rng, alg, enc, POOL[mat], b"one of many", {"kid": kid} if kid and rng.random() < .3 else {})
        ks = self.place(self.key(mat, True, kid, "", pick(rng, ["", alg])), others)
        if rng.random() < .5:
            ks.sort(key=lambda k: k.rec["mat"] == mat)       # the right one last
        d.decrypt(Obj(d), s.token().decode(), ks, what="crowd")

    def history(self):
        """One object, many calls"""
        d, rng = self.d, self.rng
        d.reset()
        alg, enc = pick(rng, list(ALGS)), an_enc(rng)
        mats = [mat_for(rng, alg, enc) for _ in range(2)]
        ks = [self.key(m, True, kid) for m, kid in zip(mats, pick(rng, [("", ""), ("k1", "k2"), ("k1", ""), ("", "k2")]))]
        kw = self.kwargs(alg, enc)
        obs = [Obj(d, "m", **kw), Obj(d)]
        toks = []
        for _ in range(rng.randrange(3, 8)):
            r = rng.randrange(8)
            k = pick(rng, ks)
            if r < 3:
                cek = os.urandom(CEKLEN[enc]) if rng.random() < .2 else b""
                iv = os.urandom(16 if enc in CBC else 12) if rng.random() < .2 else b""
                t = d.encrypt(obs[0], message(rng), [k] if rng.random() < .6 else ks, cek, iv, what="history")
                if t:
                    toks.append(t)
            elif r == 3:
                s = Sender(rng, alg, enc, POOL[pick(rng, mats)], b"foreign %d" % rng.randrange(99), {"kid": k.rec["kid"]} if k.rec["kid"] else {})
                toks.append(s.token().decode())
            elif r == 4 and toks:
                t = pick(rng, toks).split(".")
                i = rng.randrange(1, 5)
                t[i] = u(flip(rng, progs.b64loose(t[i].encode())))
                toks.append(".".join(t))
            elif r == 5 and toks:
                f = d.factory(pick(rng, toks))
                if f:
                    obs.append(f)
            elif toks:
                ob = pick(rng, obs)
                t = pick(rng, toks)
                d.decrypt(ob, t, [k] if rng.random() < .5 else ks, want=pick(rng, [None, None, None, alg, "RSA1_5"]), what="history")

    def reuse(self):
        """Many messages with few objects and keys (C10)"""
        d, rng = self.d, self.rng
        d.reset()
        alg, enc = pick(rng, list(ALGS)), pick(rng, CBC)
        ks = [self.key(mat_for(rng, alg, enc), True) for _ in range(2)]
        ob = Obj(d, "m", alg=alg, enc=enc)
        for n in range(rng.randrange(2, 6)):
            if rng.random() < .3:
                ob = Obj(d, "m", alg=alg, enc=enc)
            cek = os.urandom(CEKLEN[enc]) if rng.random() < .2 else b""
            iv = os.urandom(16) if rng.random() < .2 else b""
            t = d.encrypt(ob, "same message", [pick(rng, ks)], cek, iv, what="reuse")
            if t and rng.random() < .3:
                d.decrypt(ob, t, ks, what="reuse", cek=cek or None)

    def rawlevel(self):
        d, rng = self.d, self.rng
        d.reset()
        alg, enc = pick(rng, list(RSA_ALGS + KW)), pick(rng, CBC) if rng.random() < .9 else pick(rng, ENCS)
        if alg in KW:
            mat, cls = pick(rng, {"A128KW": ["o16", "o16b"], "A192KW": ["o24"], "A256KW": ["o32", "o32b", "o32z", "o32e"]}[alg]), JWE_SYM
        else:
            mat, cls = mat_for(rng, alg, enc), JWE_RSA
        k = K(mat, True)
        kw = {"alg": alg, "enc": enc}
        if rng.random() < .3:
            kw["zip"] = "DEF"
        ob = Obj(d, "m", raw=cls, **kw)
        t = d.raw_encrypt(ob, message(rng), k, "rawlevel")
        if not t:
            return
        dec = Obj(d, raw=cls) if rng.random() < .6 else ob
        d.raw_decrypt(dec, t, k, "rawlevel")
        p = t.split(".")
        for _ in range(2):
            i = rng.randrange(5)
            q = list(p)
            q[i] = u(flip(rng, progs.b64loose(p[i].encode())))
            if rng.random() < .3:
                q = p[:4] + [u(progs.b64loose(p[4].encode())[:-1])]
            d.raw_decrypt(dec, ".".join(q), k, "rawlevel altered")
        other = K(mat_for(rng, alg, enc), True) if alg not in KW else K(pick(rng, ["o16", "o24", "o32"]), True)
        d.raw_decrypt(dec, t, other, "rawlevel other key")

    def garbage(self):
        d, rng = self.d, self.rng
        d.reset()
        ks = [self.key(mat_for(rng, a), True) for a in ("RSA-OAEP", "A128KW", "ECDH-ES")]
        ob = Obj(d)
        for _ in range(4):
            h = {"alg": pick(rng, list(ALGS) + ["dir"]), "enc": pick(rng, CBC)}
            parts = [b64u(json.dumps(h).encode())] + [b64u(os.urandom(rng.choice([0, 8, 16, 32, 40, 128]))) for _ in range(rng.choice([4, 4, 4, 3, 5, 2]))]
            t = b".".join(parts)
            if rng.random() < .3:
                t = pick(rng, [b"", b".", b"....", b"a.b.c.d.e", b"e30....", b"bnVsbA....", b"W10....", t.replace(b".", b".."), t[:-1], b"\xff" + t,
                               b64u(b'"x"') + b"....", b64u(json.dumps(h).encode()) + b"...."])
            d.decrypt(ob, t.decode("latin1"), ks, what="garbage")

    def classify(self):
        d, rng = self.d, self.rng
        d.reset()
        for _ in range(4):
            r = rng.randrange(6)
            if r < 2:
                h = {"alg": pick(rng, list(ALGS) * 2 + ["dir", "none", "RS256", "", None, 5, "A128GCMKW", "rsa-oaep"]),
                     "enc": pick(rng, list(ENCS) * 2 + ["none", "", None, 7, "A128CBC", "a128gcm"])}
                if rng.random() < .4:       # names in each other's place, parts of names, names in other spellings
                    names = list(ALGS) + list(ENCS)
                    for k in pick(rng, [("alg",), ("enc",), ("alg", "enc")]):
                        x = pick(rng, names)
                        h[k] = weighted(rng, [(x, 6), (x.lower(), 1), (x[:-1], 1), (x + "x", 1), (" " + x, 1), ([x], 1), ({x: 1}, .5), (pick(rng, ["HS256", "RS512", "ES256", "PS384"]), 2)])
                if rng.random() < .3:
                    h["typ"] = pick(rng, ["JWE", "JWT", "jwe", "JOSE", "JWE+JSON", 5, ""])
                for k in ("alg", "enc"):
                    if rng.random() < .1:
                        del h[k]
                n = rng.choice([5, 5, 5, 5, 3, 4, 6, 2])
                tok = b".".join([b64u(header_json(rng, h))] + [b64u(os.urandom(rng.randrange(20))) for _ in range(n - 1)])
            elif r == 2:
                alg, enc = pick(rng, list(ALGS)), an_enc(rng)
                mat = mat_for(rng, alg, enc)
                s = Sender(rng, alg, enc, POOL[mat], b"x", {"typ": "JWE"} if rng.random() < .3 else {})
                tok = s.token()
                f = d.factory(tok.decode() if rng.random() < .5 else tok, "token")
                if f:
                    t2 = Sender(rng, alg, enc, POOL[mat], b"y").token().decode()
                    other = rng.random() < .3
                    d.decrypt(f, t2 if other else tok.decode(), [self.key(mat, True)], usetoken=other or rng.random() < .5, what="factory object")
                continue
            elif r == 3:
                a = pick(rng, ["RS256", "HS256", "ES256"])
                tok = make_jws(a, POOL[jws_mat(rng, a)], b'{"alg":"%s"}' % a.encode(), b"payload")
            else:
                tok = pick(rng, [b"", b".", b"a.b", b"....", b"e30.e30.e30", b"e30....", b"W10....", b"bnVsbA....", b"NQ....", b"eyJhbGciOm51bGx9....",
                                 b"{}", b"x" * 30, os.urandom(20).hex().encode()])
            d.factory(tok if rng.random() < .5 else tok.decode(), "classify")
