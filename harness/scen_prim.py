"""Drives the cryptographic building blocks (jwkest.extra, aes_gcm,
aes_key_wrap, the signers, hashes) and records what they answer, next to what
the programs of spec/Formats.tla make of the same input (C18)."""
import hashlib

import absjws
import progs
from common import POOL, native_rsa, pick, weighted
from drv_jws import EC
from progs import Fail

import jwkest.aes_gcm as aes_gcm
import jwkest.aes_key_wrap as kw
import jwkest.extra as extra
from jwkest import jwk, jws
from jwkest.ecc import NISTEllipticCurve
from jwkest.jwe import JWe
from jwkest.jwk import SYMKey

CBC = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]
GCM = ["A128GCM", "A192GCM", "A256GCM"]
KEYS = {"A128CBC-HS256": 32, "A192CBC-HS384": 48, "A256CBC-HS512": 64, "A128GCM": 16, "A192GCM": 24, "A256GCM": 32}
RSAS = ["r1024a", "r1024e3", "r1031", "r2048a", "r2048b"]


class Odd(Exception):
    pass


def txt(x):
    if isinstance(x, bool) or x is None:
        return str(x)
    if isinstance(x, (bytes, bytearray)):
        x = bytes(x)
        return x.hex() if len(x) < 2000 else "%d:%s" % (len(x), hashlib.sha256(x).hexdigest())
    if isinstance(x, str):
        return "t" + x
    if isinstance(x, int):
        return "%032x" % x
    if isinstance(x, (tuple, list)):
        return "/".join(txt(y) for y in x)
    raise Odd(type(x).__name__)


def limbs(x):
    return [(x >> (112 - 16 * j)) & 0xffff for j in range(8)]


class Scen(object):
    def __init__(self, rec, rng, programs):
        absjws.PROG = programs
        self.rec, self.rng, self.g = rec, rng, programs
        self.objs = 0

    def want(self, prog, outs, **env):
        try:
            v = progs.run(prog, env)
        except Fail:
            return "fail"
        return txt([v[o] for o in outs] if len(outs) > 1 else v[outs[0]])

    def attempt(self, f):
        try:
            return {"kind": "ok", "r": txt(f())}
        except Exception as e:
            return {"kind": "err", "cls": type(e).__name__, "r": ""}

    def call(self, fn, want, f, **info):
        self.rec.emit({"op": "call", "fn": fn, "want": want, "out": self.attempt(f)}, dict({"what": fn}, **{k: txt(v) for k, v in info.items()}))

    def octets(self, most=80, big=0.):
        rng = self.rng
        if rng.random() < big:       # about where lengths outgrow 8, 16, 24 bits
            n = weighted(rng, [(pick(rng, [256, 4096, 8192]) + pick(rng, [-17, -16, -1, 0, 1, 15, 16]), 6), (pick(rng, [65536, 131072]) + pick(rng, [-16, -1, 0, 1]), 2), (2 ** 21 + pick(rng, [-1, 0, 1]), .3 if most == 40 and big == .12 else 0)])
            return rng.randbytes(n)
        n = weighted(rng, [(rng.randrange(most), 6), (16 * rng.randrange(5), 2), (16 * rng.randrange(1, 5) + pick(rng, [-1, 1]), 2), (0, 1), (rng.randrange(600), .3)])
        return weighted(rng, [(rng.randbytes(n), 6), (b"\0" * n, 1), (bytes([pick(rng, [1, 2, 15, 16, 17, 255])]) * n, 2)])

    def altered(self, b, empty=True):
        """b with something changed"""
        rng = self.rng
        k = rng.randrange(7)
        if not b:
            return rng.randbytes(rng.randrange(1, 17))
        if k < 3:
            j = rng.choice([0, len(b) - 1, rng.randrange(len(b))])
            return b[:j] + bytes([b[j] ^ (1 << rng.randrange(8))]) + b[j + 1:]
        if k == 3:
            return b[:-1] if len(b) > 1 or empty else b + b"\0"
        if k == 4:
            return b + pick(rng, [b"\0", b[-1:], rng.randbytes(1), b])
        if k == 5:
            return b[:rng.randrange(len(b))] or (b"" if empty else b + b"x")
        return b[1:] + b[:1] if len(set(b)) > 1 else b + b"y"

    # -- content encryption

    def cbc(self):
        rng = self.rng
        enc = pick(rng, CBC)
        key, iv, aad, pt = rng.randbytes(KEYS[enc]), rng.randbytes(16), self.octets(40, .12), self.octets(80, .06)
        p = self.g.content[enc]
        info = dict(enc=enc, key=key, iv=iv, aad=aad, pt=pt)
        self.call("cbc_encrypt", self.want(p["enc"], ["ct", "tag"], cek=key, iv=iv, aad=aad, pt=pt), lambda: extra.aes_cbc_hmac_encrypt(key, iv, aad, pt), **info)
        v = progs.run(p["enc"], dict(cek=key, iv=iv, aad=aad, pt=pt))
        ct, tag = v["ct"], v["tag"]
        self.call("cbc_decrypt", txt(pt), lambda: extra.aes_cbc_hmac_decrypt(key, iv, aad, ct, tag), **info)
        for _ in range(3):
            a = dict(key=key, iv=iv, aad=aad, ct=ct, tag=tag)
            w = pick(rng, list(a) + ["tag", "ct"])
            a[w] = self.altered(a[w])
            if w == "key" and rng.random() < .5:
                a[w] = key[len(key) // 2:] + key[:len(key) // 2]
            self.call("cbc_decrypt", self.want(p["dec"], ["pt"], cek=a["key"], iv=a["iv"], aad=a["aad"], ct=a["ct"], tag=a["tag"]),
                      lambda: extra.aes_cbc_hmac_decrypt(a["key"], a["iv"], a["aad"], a["ct"], a["tag"]), enc=enc, **a)
        # authentic, with a padding that is none, or octets that are no blocks
        if rng.random() < .5:
            v = dict(cek=key, iv=iv, aad=aad)
            half = KEYS[enc] // 2
            if rng.random() < .6:
                body = bytearray(rng.randbytes(16 * rng.randrange(1, 4)))
                n = rng.randrange(0, 20)
                for j in range(min(n, 16)):
                    body[-1 - j] = n
                if rng.random() < .4:
                    body[-rng.randrange(1, 17)] ^= 1
                from Cryptodome.Cipher import AES
                ct = AES.new(key[half:], AES.MODE_CBC, iv).encrypt(bytes(body))
            else:
                ct = rng.randbytes(rng.randrange(40))
            tag = progs.do_hmac({16: 256, 24: 384, 32: 512}[half], key[:half], aad + iv + ct + (8 * len(aad)).to_bytes(8, "big"))[:half]
            self.call("cbc_decrypt", self.want(p["dec"], ["pt"], cek=key, iv=iv, aad=aad, ct=ct, tag=tag),
                      lambda: extra.aes_cbc_hmac_decrypt(key, iv, aad, ct, tag), enc=enc, key=key, iv=iv, aad=aad, ct=ct, tag=tag)
        badk, badiv = rng.randbytes(pick(rng, [0, 16, 24, 31, 33, 47, 63, 65, 128])), rng.randbytes(pick(rng, [0, 8, 12, 15, 17, 32]))
        if rng.random() < .3:
            self.call("cbc_encrypt", "fail", lambda: extra.aes_cbc_hmac_encrypt(badk, iv, aad, pt), key=badk)
            self.call("cbc_encrypt", "fail", lambda: extra.aes_cbc_hmac_encrypt(key, badiv, aad, pt), iv=badiv)
        x = self.octets(50)
        pad = 16 - len(x) % 16
        self.call("pad", txt(x + bytes([pad]) * pad), lambda: extra.pkcs5pad(x), x=x)
        y = pick(rng, [x + bytes([pad]) * pad, self.octets(40), rng.randbytes(15) + bytes([rng.randrange(20)])])
        try:
            want = txt(progs.unpkcs7(y))
        except Fail:
            want = "fail"
        self.call("trim", want, lambda: extra.pkcs5trim(y), x=y)

    def gcm(self):
        rng = self.rng
        self.objs += 1
        enc = pick(rng, GCM)
        key = rng.randbytes(KEYS[enc])
        if rng.random() < .2:
            key = b"\0" * rng.randrange(1, len(key)) + key
            key = key[:KEYS[enc]]
        p = self.g.content[enc]
        try:
            if len(key) == 16 and rng.random() < .3:        # the number instead of the octets
                o = aes_gcm.AES_GCM(int.from_bytes(key, "big"))
            else:
                o = aes_gcm.AES_GCM(key)
                if rng.random() < .2:
                    key = rng.randbytes(KEYS[enc])
                    o.change_key(key)
        except Exception as e:
            self.rec.emit({"op": "call", "fn": "gcm", "want": "", "out": {"kind": "err", "cls": type(e).__name__, "r": ""}}, {"what": "gcm"})
            return
        ivs = [weighted(rng, [(rng.randbytes(12), 5), (b"\0" * 12, 1), (b"\xff" * 12, 1), (b"\0" * 8 + rng.randbytes(4), 1)]) for _ in range(2)]
        for _ in range(rng.randrange(2, 5)):
            iv = pick(rng, ivs)
            n = int.from_bytes(iv, "big")
            aad, pt = self.octets(40, .04), self.octets(70, .04)
            short = rng.random() < .2
            if short:
                aad = b""
            v = progs.run(p["enc"], dict(cek=key, iv=iv, aad=aad, pt=pt))
            ct, tag = v["ct"], v["tag"]
            out = self.attempt(lambda: o.encrypt(n, pt) if short else o.encrypt(n, pt, aad))
            self.rec.emit({"op": "gcm", "obj": "g%d" % self.objs, "iv": iv.hex(), "want": txt([ct, int.from_bytes(tag, "big")]), "out": out},
                          {"what": "gcm", "key": key.hex(), "iv": iv.hex(), "pt": txt(pt), "aad": txt(aad)})
            if out["kind"] == "ok" and len(pt) + len(aad) < 200 and rng.random() < .3:
                self.ghash(v, out)
            t = int.from_bytes(tag, "big")
            info = dict(key=key, iv=iv, aad=aad, ct=ct, tag=tag)
            self.call("gcm_decrypt", txt(pt), lambda: o.decrypt(n, ct, t) if short else o.decrypt(n, ct, t, aad), **info)
            for _ in range(2):
                a = dict(n=n, ct=ct, t=t, aad=aad)
                w = pick(rng, ["n", "ct", "t", "aad", "t"])
                if w == "n":
                    a["n"] = weighted(rng, [(n ^ (1 << rng.randrange(96)), 3), ((n + 1) % (1 << 96), 1), (n | 1 << 96, 1), (1 << 100, 1)])
                elif w == "t":
                    a["t"] = weighted(rng, [(t ^ (1 << rng.randrange(128)), 4), (t >> 8, 1), (t & ((1 << 96) - 1), 1), (t + (1 << 128), 1), (0, 1)])
                else:
                    a[w] = self.altered(a[w])
                if a["n"] >> 96 or a["t"] >> 128:
                    want = "fail"
                else:
                    want = self.want(p["dec"], ["pt"], cek=key, iv=a["n"].to_bytes(12, "big"), aad=a["aad"], ct=a["ct"], tag=a["t"].to_bytes(16, "big"))
                self.call("gcm_decrypt", want, lambda: o.decrypt(a["n"], a["ct"], a["t"], a["aad"]), key=key, **a)
        if rng.random() < .2:
            self.call("gcm_encrypt", "fail", lambda: o.encrypt(1 << 96, b"x", b""))

    def ghash(self, v, out):
        """the tag by the specification's own GHASH"""
        def blocks(b):
            return [limbs(int.from_bytes(b[j:j + 16], "big")) for j in range(0, len(b), 16)]
        try:
            tag = int(out["r"].split("/")[1], 16)
        except (IndexError, ValueError):
            return
        self.rec.emit({"op": "ghash", "h": limbs(int.from_bytes(v["hk"], "big")), "blocks": blocks(v["gi"]), "mask": limbs(int.from_bytes(v["ej"], "big")),
                       "out": {"kind": "ok", "r": limbs(tag)}}, {"what": "ghash"})

    def gf(self):
        rng = self.rng
        mul = getattr(aes_gcm, "gf_2_128_mul", None)
        if mul is None:
            return
        def e():
            return weighted(rng, [(rng.getrandbits(128), 5), (1 << rng.randrange(128), 2), (0, .5), ((1 << 128) - 1, .5), (1 << 127, .5), (1, .5), (rng.getrandbits(8) << 8 * rng.randrange(16), 2)])
        for _ in range(3):
            x, y = e(), e()
            try:
                out = {"kind": "ok", "r": limbs(mul(x, y))}
            except Exception as ex:
                out = {"kind": "err", "cls": type(ex).__name__, "r": []}
            self.rec.emit({"op": "gf", "x": limbs(x), "y": limbs(y), "out": out}, {"what": "gf", "x": hex(x), "y": hex(y)})

    def content(self):
        """as jwkest.jwe uses them"""
        rng = self.rng
        enc = pick(rng, CBC + GCM)
        key, iv, aad, pt = rng.randbytes(KEYS[enc]), rng.randbytes(16 if enc in CBC else 12), self.octets(40, .1), self.octets(80, .06)
        if enc in GCM and rng.random() < .2:
            iv = b"\0" * 4 + iv[4:]
        p = self.g.content[enc]
        v = progs.run(p["enc"], dict(cek=key, iv=iv, aad=aad, pt=pt))
        info = dict(enc=enc, key=key, iv=iv, aad=aad, pt=pt)
        self.call("content_encrypt", txt([v["ct"], v["tag"], key]), lambda: JWe().enc_setup(enc, pt, aad, key=key, iv=iv), **info)
        dec = getattr(JWe, "_decrypt", None)
        if dec is None:
            return
        self.call("content_decrypt", txt(pt), lambda: dec(enc, key, v["ct"], aad, iv, v["tag"]), **info)
        for _ in range(3):
            a = dict(key=key, iv=iv, aad=aad, ct=v["ct"], tag=v["tag"])
            w = pick(rng, list(a) + ["tag"])
            a[w] = self.altered(a[w])
            if w == "tag" and rng.random() < .4:
                a[w] = pick(rng, [a["tag"][:12], a["tag"][:4], b"", b"\0" * len(v["tag"]), v["tag"] + b"\0", b"\0" + v["tag"], v["mac"] if "mac" in v else v["tag"][1:]])
            self.call("content_decrypt", self.want(p["dec"], ["pt"], cek=a["key"], iv=a["iv"], aad=a["aad"], ct=a["ct"], tag=a["tag"]),
                      lambda: dec(enc, a["key"], a["ct"], a["aad"], a["iv"], a["tag"]), enc=enc, **a)

    # -- key wrap

    def wrap(self):
        rng = self.rng
        n = weighted(rng, [(pick(rng, [2, 3, 4, 6, 8]), 8), (5, .5), (7, .5), (9, .5), (12, .5), (16, .5), (45, .3)])
        kek, p = rng.randbytes(pick(rng, [16, 24, 32])), weighted(rng, [(rng.randbytes(8 * n), 5), (b"\0" * (8 * n), 1)])
        W, U = self.g.kw[n]
        c = progs.run(W, dict(kek=kek, p=p))["c"]
        info = dict(kek=kek, p=p)
        self.call("wrap", txt(c), lambda: kw.aes_wrap_key(kek, p), **info)
        self.call("unwrap", txt(p), lambda: kw.aes_unwrap_key(kek, c), **info)
        for _ in range(3):
            k2, c2 = kek, c
            x = rng.randrange(8)
            if x < 4:
                c2 = self.altered(c)
            elif x == 4:
                k2 = self.altered(kek)
            elif x == 5:
                j = 8 * rng.randrange(n)
                c2 = c[:j] + c[j + 8:j + 16] + c[j:j + 8] + c[j + 16:]
            elif x == 6:
                c2 = rng.randbytes(len(c))
            else:
                c2 = c[:8 * rng.randrange(4)]
            m = len(c2) // 8 - 1
            want = "fail"
            if len(c2) % 8 == 0 and m in self.g.kw:
                want = self.want(self.g.kw[m][1], ["p"], kek=k2, c=c2)
            elif len(c2) % 8 == 0 and m >= 2:
                continue
            self.call("unwrap", want, lambda: kw.aes_unwrap_key(k2, c2), kek=k2, c=c2)
        bad = rng.randbytes(8 * n + rng.randrange(1, 8))
        self.call("wrap", "fail", lambda: kw.aes_wrap_key(kek, bad), kek=kek, p=bad)
        badk = rng.randbytes(pick(rng, [0, 8, 15, 17, 31, 33]))
        self.call("wrap", "fail", lambda: kw.aes_wrap_key(badk, p), kek=badk)
        if rng.random() < .4:
            iv = rng.getrandbits(64)
            try:
                d = kw.aes_wrap_key(kek, p, iv)
            except Exception:
                d = b""
            self.call("unwrap_iv", txt(p), lambda: kw.aes_unwrap_key(kek, d, iv), **info)
            if iv != 0xa6a6a6a6a6a6a6a6:
                self.call("unwrap_iv", "fail", lambda: kw.aes_unwrap_key(kek, d), **info)
                self.call("unwrap_iv", "fail", lambda: kw.aes_unwrap_key(kek, d, iv ^ 1 << rng.randrange(64)), **info)

    def wrap_pad(self):
        """with padding (RFC 5649): keys of any number of octets"""
        rng = self.rng
        m = weighted(rng, [(pick(rng, list(self.g.kwpad)), 5), (rng.randrange(1, 10), 2), (pick(rng, [8, 16, 24, 32]), 2)])
        kek, p = rng.randbytes(pick(rng, [16, 24, 32])), weighted(rng, [(rng.randbytes(m), 5), (b"\0" * m, 1), (rng.randbytes(m - 1) + b"\0", 1)])
        c = progs.run(self.g.kwpad[m][0], dict(kek=kek, p0=p))["c"]
        self.call("wrap_pad", txt(c), lambda: kw.aes_wrap_key_withpad(kek, p), kek=kek, p=p)
        self.call("unwrap_pad", txt(p), lambda: kw.aes_unwrap_key_withpad(kek, c), kek=kek, c=c)
        for _ in range(3):
            k2, c2 = kek, c
            x = rng.randrange(8)
            n = max(8, len(c) - 8)
            if x < 3:
                c2 = self.altered(c)
            elif x == 3:
                k2 = self.altered(kek)
            elif x == 4:
                c2 = c[:rng.randrange(len(c))] if rng.random() < .5 else c[:8 * rng.randrange(4)]
            elif x < 7:     # another length, padding or mark under the right key
                top = pick(rng, [0xa65959a6, 0xa65959a6, 0xa65959a6, 0xa6a6a6a6, 0xa65959a7, 0])
                low = weighted(rng, [(n - rng.randrange(8), 3), (n - 8, 1), (n + 1, 1), (0, 1), (n + 256, .5), (0xffffffff, .5), (n % 256 + 2 ** 31, .5)])
                q = p + weighted(rng, [(b"\0" * 8, 2), (rng.randbytes(8), 2), (b"\0" * 7 + b"\1", 1), (b"\1" + b"\0" * 7, 1)])
                q = q[:n]
                a = (top << 32 | max(0, low) & 0xffffffff).to_bytes(8, "big")
                c2 = self.seal(kek, a, q)
            else:           # without padding
                c2 = progs.run(self.g.kw[2][0], dict(kek=kek, p=rng.randbytes(16)))["c"]
            want = "fail"
            if len(c2) % 8 == 0 and len(c2) >= 16:
                n = len(c2) - 8
                ms = [k for k in range(n - 7, n + 1)]
                if any(k not in self.g.kwpad for k in ms):
                    if c2 == c:
                        continue
                    ms = [k for k in ms if k in self.g.kwpad]
                    if not ms:
                        continue
                for k in ms:
                    w = self.want(self.g.kwpad[k][1], ["p0"], kek=k2, c=c2)
                    if w != "fail":
                        want = w
                if want == "fail" and len(ms) < 8:
                    continue
            self.call("unwrap_pad", want, lambda: kw.aes_unwrap_key_withpad(k2, c2), kek=k2, c=c2)
        if rng.random() < .2:
            self.call("wrap_pad", "fail", lambda: kw.aes_wrap_key_withpad(kek, b""), kek=kek)
            bad = rng.randbytes(pick(rng, [0, 8, 15, 17, 31, 33]))
            self.call("wrap_pad", "fail", lambda: kw.aes_wrap_key_withpad(bad, p), kek=bad)

    def seal(self, kek, a, q):
        """octets q under any first block"""
        e = progs.aes(kek)
        if len(q) == 8:
            return e.encrypt(a + q)
        n = len(q) // 8
        r = [q[8 * j:8 * j + 8] for j in range(n)]
        for t in range(6 * n):
            b = e.encrypt(a + r[t % n])
            a = progs.xor(b[:8], (t + 1).to_bytes(8, "big"))
            r[t % n] = b[8:]
        return a + b"".join(r)

    def long(self):
        """more octets than a counter of 16 bits has blocks"""
        rng = self.rng
        pt, key, iv, aad = rng.randbytes(2 ** 20 + rng.randrange(3000)), rng.randbytes(16), rng.randbytes(12), self.octets(40)
        p = self.g.content["A128GCM"]
        v = progs.run(p["enc"], dict(cek=key, iv=iv, aad=aad, pt=pt))
        n, t = int.from_bytes(iv, "big"), int.from_bytes(v["tag"], "big")
        self.call("gcm", txt([v["ct"], t]), lambda: aes_gcm.AES_GCM(key).encrypt(n, pt, aad), key=key, iv=iv, aad=aad)
        self.call("gcm_decrypt", txt(pt), lambda: aes_gcm.AES_GCM(key).decrypt(n, v["ct"], t, aad), key=key, iv=iv, aad=aad)

    # -- key derivation, hashes

    def kdf(self):
        rng = self.rng
        bits = pick(rng, list(self.g.kdf) + [128, 192, 256, 384, 512])
        env = dict(algid=pick(rng, [b"A128GCM", b"ECDH-ES+A128KW", b"A256CBC-HS512", b"", self.octets(20)]), apu=self.octets(20, .05), apv=self.octets(20, .05), z=self.octets(70))
        v = progs.run(self.g.kdf[bits], env)
        self.call("kdf", txt(v["dk"]), lambda: extra.concat_sha256(env["z"], bits, v["oi"]), bits=bits, **env)
        crv = pick(rng, ["P-256", "P-384", "P-521"])
        a, b = POOL[pick(rng, EC[crv])], POOL[pick(rng, EC[crv])]
        if a.d:
            z = progs.ecdh(a, (crv, b.x, b.y))
            env["z"] = z
            v = progs.run(self.g.kdf[bits], env)
            c = NISTEllipticCurve.by_name(crv)
            self.call("derive", txt(v["dk"]), lambda: extra.ecdh_derive_key(c, a.d, (b.x, b.y), env["apu"], env["apv"], env["algid"], bits), bits=bits, **env)

    def hashes(self):
        rng = self.rng
        for b in (256, 384, 512):
            x = self.octets(80, .05)
            t = "".join(pick(rng, ["a", "\u00e9", "\u20ac", "\U0001f511", "\0", "Z"]) for _ in range(rng.randrange(8)))
            m, f = (x, x) if rng.random() < .5 else (t.encode(), t)
            self.call("left_hash", "t" + progs.run(self.g.left_hash[b], dict(x=m))["out"].decode(), lambda: jws.left_hash(f, "HS%d" % b), x=m)
            if b == 256:
                self.call("left_hash", "t" + progs.run(self.g.left_hash[b], dict(x=m))["out"].decode(), lambda: jws.left_hash(f), x=m)
            self.call("hash", txt(hashlib.new("sha%d" % b, m).digest()), lambda: getattr(jwk, "sha%d_digest" % b)(f), x=m)
        alg = pick(rng, list(self.g.oidc))
        key = rng.randbytes(rng.randrange(1, 80))
        self.call("oidc", txt(progs.run(self.g.oidc[alg], dict(key=key))["out"]), lambda: SYMKey(key=key).encryption_key(alg), alg=alg, key=key)

    # -- signers

    def sign(self):
        rng = self.rng
        alg = pick(rng, list(self.g.raw_sign))
        m = self.octets(80, .04)
        if alg[:2] == "HS":
            mat = rng.randbytes(pick(rng, [1, 16, 32, 48, 63, 64, 65, 127, 128, 129, 200]))
            sk = pk = mat
        elif alg[:2] == "ES":
            crv = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}[alg]
            mat = POOL[pick(rng, EC[crv])]
            if not mat.d:
                return
            sk, pk = mat.d, (mat.x, mat.y)
        else:
            mat = POOL[pick(rng, RSAS)]
            sk, pk = native_rsa(mat), native_rsa(mat, False)
        s = jws.SIGNER_ALGS[alg]
        info = dict(alg=alg, m=m)
        try:
            good = progs.run(self.g.raw_sign[alg], dict(key=mat, si=m))["sig"]
        except Fail:
            return
        if alg[:2] in ("HS", "RS"):
            self.call("sign", txt(good), lambda: s.sign(m, sk), **info)
        else:
            try:
                sig = s.sign(m, sk)
                w = self.want(self.g.raw_verify[alg], ["si"], key=mat, si=m, sig=sig)
                self.rec.emit({"op": "call", "fn": "sign", "want": txt(m), "out": {"kind": "ok", "r": w}}, {"what": "sign", "alg": alg})
            except Exception as e:
                self.rec.emit({"op": "call", "fn": "sign", "want": "", "out": {"kind": "err", "cls": type(e).__name__, "r": ""}}, {"what": "sign", "alg": alg})
        self.call("verify", "True", lambda: s.verify(m, good, pk), sig=good, **info)
        for _ in range(3):
            m2, s2 = (self.altered(m), good) if rng.random() < .3 else (m, self.altered(good))
            try:
                progs.run(self.g.raw_verify[alg], dict(key=mat, si=m2, sig=s2))
                want = "True"
            except Fail:
                want = "fail"
            self.call("verify", want, lambda: s.verify(m2, s2, pk), alg=alg, m=m2, sig=s2)

    def steps(self, prop, behaviours=None, lists=None):
        yield self.long
        while True:
            yield weighted(self.rng, [(self.cbc, 3), (self.gcm, 2), (self.gf, .7), (self.content, 4), (self.wrap, 3), (self.wrap_pad, 2), (self.kdf, 3), (self.hashes, 1.5), (self.sign, 2)])
