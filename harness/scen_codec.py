"""Drives the codecs of jwkest/__init__.py and jwkest.jwt.JWT and records what
they answer (events for spec/CodecTrace.tla, C16)."""
import base64
import json

import progs
from common import ODDITIES, canon, pick, weighted

import jwkest
from jwkest import BadSyntax
from jwkest.jwe import JWEnc
from jwkest.jws import JWSig
from jwkest.jwt import JWT, split_token

URL = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


class Odd(Exception):
    pass


def octets(x):
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, str):
        return list(x.encode("utf-8"))
    raise Odd(type(x).__name__)


def int_octets(x):
    if isinstance(x, bool) or not isinstance(x, int) or x < 0:
        raise Odd(type(x).__name__)
    return list(x.to_bytes((x.bit_length() + 7) // 8, "big"))


def run(f, conv=lambda x: x, types=None):
    try:
        r = f()
        if types and not isinstance(r, types):
            raise Odd(type(r).__name__)
        return {"kind": "ok", "r": conv(r)}
    except BadSyntax as e:
        try:
            str(e), repr(e)
        except Exception:
            return {"kind": "err", "cls": "BadSyntax", "syntax": False}
        return {"kind": "err", "cls": type(e).__name__, "syntax": True}
    except Exception as e:
        return {"kind": "err", "cls": type(e).__name__, "syntax": False}


def js(b):
    """Canonical form of the JSON value that these octets are"""
    try:
        t = b.decode("utf-8") if isinstance(b, bytes) else b
        return canon(json.loads(t))
    except (ValueError, RecursionError):
        return ""


class Scen(object):
    def __init__(self, rec, rng, programs):
        self.rec, self.rng = rec, rng

    # -- values

    def data(self, most=40):
        rng = self.rng
        n = weighted(rng, [(rng.randrange(0, 8), 6), (rng.randrange(most), 4), (rng.randrange(most * 4), .5)])
        k = rng.random()
        if k < .6:
            return rng.randbytes(n)
        if k < .75:
            return bytes(pick(rng, [0, 255, 251, 62 << 2, 3, 63]) for _ in range(n))
        return pick(rng, [b"", b"\0", b"\0" * n, b"\xff" * n, b"\xfb\xef\xbe", b"\xff\xff\xff", b"\n", b"="])

    def text(self):
        """octets that may be base64url"""
        rng = self.rng
        n = weighted(rng, [(rng.randrange(0, 9), 6), (rng.randrange(60), 3)])
        t = bytearray(pick(rng, URL) for _ in range(n))
        k = rng.random()
        if k < .3:
            t = bytearray(progs.b64u(self.data()))
        if k < .55:
            pass
        elif k < .7 and t:
            j = rng.choice([0, len(t) - 1, rng.randrange(len(t))])
            t[j:j + rng.randrange(2)] = bytes([pick(rng, [43, 47, 61, 10, 13, 32, 46, 0, 255, 126, 64, 91, 96, 123, 44, 95, 45, 195])])
        elif k < .8:
            t += b"=" * rng.randrange(1, 6)
        elif k < .85:
            t += b"=" * (-len(t) % 4)
        elif k < .9:
            t += pick(rng, [b"\n", b"\r\n", b" ", b"\0", b"=\n", b"\n="])
        elif k < .95:
            t = bytearray(rng.randbytes(rng.randrange(1, 9)))
        else:
            t = bytearray(pick(rng, [b"", b"=", b"==", b"====", b"A", b"A===", b"AA", b"AA==", b"AA=", b"AAA=", b"AAA==", b"A=A=", b"=AAA", b"AAAA=", b"+/+/", b"A+",
                                     b"AA\n", b"\nAA", b"_w", b"_x", b"-_", b"__8", b"__9"]))
        return bytes(t)

    def integer(self):
        rng = self.rng
        return weighted(rng, [(rng.randrange(300), 4), (rng.getrandbits(rng.randrange(1, 80)), 4), (rng.getrandbits(2048) | 1 << 2047, .5), (1 << (8 * rng.randrange(40)), 2),
                              ((1 << (8 * rng.randrange(1, 40))) - 1, 2), (0, 1), (rng.getrandbits(8 * rng.randrange(1, 70)) << 8 * rng.randrange(9), 1)])

    # -- base64url and integers

    def small(self):
        rng, J = self.rng, jwkest
        for _ in range(12):
            x = self.data()
            self.rec.emit({"op": "b64e", "x": list(x), "out": run(lambda: J.b64e(x), octets, bytes)}, {"what": "b64e", "x": x.hex()})
            t = self.text()
            self.rec.emit({"op": "b64d", "x": list(t), "out": run(lambda: J.b64d(t), octets, bytes)}, {"what": "b64d", "x": repr(t)})
            p = bytes(pick(rng, URL) for _ in range(rng.randrange(9)))
            self.rec.emit({"op": "pad", "x": list(p), "out": run(lambda: J.add_padding(p), octets, bytes)}, {"what": "pad", "x": repr(p)})
            n = self.integer()
            w = rng.randrange(80) if rng.random() < .3 else 0
            self.rec.emit({"op": "l2b", "x": int_octets(n), "width": w,
                           "out": run(lambda: J.long_to_base64(n, w) if w else J.long_to_base64(n), octets, str)}, {"what": "l2b", "n": hex(n), "w": w})
            s = self.text() if rng.random() < .4 else progs.b64u(b"\0" * rng.randrange(3) + bytes(int_octets(self.integer())))
            strict = rng.random() < .5
            form = s if strict or rng.random() < .5 else s.decode("latin-1")
            f = J.base64url_to_long if strict else J.base64_to_long
            self.rec.emit({"op": "b2l", "x": list(s), "strict": strict, "out": run(lambda: f(form), int_octets)}, {"what": "b2l", "x": repr(form)})

    def around(self):
        """there and back, by the library alone"""
        rng, J = self.rng, jwkest
        for _ in range(6):
            x = self.data()
            self.conv(list(x), lambda: J.b64d(J.b64e(x)), octets, "b64d(b64e)")
            n = self.integer()
            self.conv(int_octets(n), lambda: J.base64_to_long(J.long_to_base64(n)), int_octets, "base64_to_long(long_to_base64)")
            t = self.unicode()
            self.conv(list(t.encode()), lambda: J.b64d_enc_dec(J.b64e_enc_dec(t)), octets, "enc_dec")
            self.rec.emit({"op": "b64e_text", "x": list(t.encode()), "out": run(lambda: J.b64e_enc_dec(t), octets, str)}, {"what": "b64e_enc_dec", "t": t})
            raw = self.text()
            if all(c < 128 for c in raw):
                d = progs.b64loose(raw)
                try:
                    u = d is None or d.decode("utf-8") is not None
                except UnicodeDecodeError:
                    u = False
                self.rec.emit({"op": "b64d_text", "x": list(raw), "u": u, "out": run(lambda: J.b64d_enc_dec(raw.decode()), octets, str)},
                              {"what": "b64d_enc_dec", "x": repr(raw)})
            self.conv(["b", list(t.encode())], lambda: J.as_bytes(t), lambda r: [type(r).__name__[0], octets(r)], "as_bytes")
            self.conv(["b", list(x)], lambda: J.as_bytes(x), lambda r: [type(r).__name__[0], octets(r)], "as_bytes")
            self.conv(["s", list(t.encode())], lambda: J.as_unicode(pick(rng, [t, t.encode()])), lambda r: [type(r).__name__[0], octets(r)], "as_unicode")
            try:
                x.decode()
                k = "s"
            except UnicodeDecodeError:
                k = "b"
            self.conv([k, list(x)], lambda: J.as_unicode(x), lambda r: [type(r).__name__[0], octets(r)], "as_unicode")
            if n:
                o = int_octets(n)
                self.conv(o, lambda: J.long2intarr(n), list, "long2intarr")
                self.conv(o, lambda: J.intarr2long(o), int_octets, "intarr2long")
                self.conv(o, lambda: J.intarr2bin(o), octets, "intarr2bin")
            y = x if rng.random() < .4 else bytearray(x)
            if y is not x:
                if y and rng.random() < .8:
                    y[rng.randrange(len(y))] ^= 1 << rng.randrange(8)
                else:
                    y += b"\0"
                y = bytes(y)
            if rng.random() < .2:
                y = pick(rng, [x[:-1], x[1:], b""])
            self.rec.emit({"op": "equal", "x": list(x), "y": list(y), "out": run(lambda: bool(J.constant_time_compare(x, y)))}, {"what": "compare"})
            a, b = x.decode("latin-1"), y.decode("latin-1")
            self.rec.emit({"op": "equal", "x": list(x), "y": list(y), "out": run(lambda: bool(J.safe_str_cmp(a, b)))}, {"what": "compare"})

    def conv(self, want, f, conv, what):
        self.rec.emit({"op": "conv", "want": want, "out": run(f, conv)}, {"what": what})

    def unicode(self):
        rng = self.rng
        return "".join(pick(rng, ["a", "Z", "0", " ", "\u00e9", "\u20ac", "\U0001f511", "\0", "\n", '"', "\\", "="] + ODDITIES) for _ in range(rng.randrange(9)))

    # -- tokens

    def value(self, deep=2):
        rng = self.rng
        return weighted(rng, [(lambda: self.unicode(), 4), (lambda: rng.randrange(-10 ** 6, 10 ** 12), 1), (lambda: rng.getrandbits(rng.choice([31, 32, 53, 54, 63, 64, 65, rng.randrange(1, 140)])) * rng.choice([1, 1, -1]), 1), (lambda: rng.uniform(-9, 9) * 10 ** rng.randrange(-9, 20), 1), (lambda: True, 1), (lambda: None, 1), (lambda: False, 1),
                              (lambda: [self.value(deep - 1) for _ in range(rng.randrange(3))] if deep else 0, 1),
                              (lambda: {self.unicode(): self.value(deep - 1) for _ in range(rng.randrange(3))} if deep else "", 1)])()

    def headers(self):
        rng = self.rng
        h = {}
        for k in ["alg", "typ", "kid", "cty", "x", "crit", "jku", "enc"]:
            if rng.random() < .4:
                h[k] = {"alg": lambda: pick(rng, ["RS256", "none", "", "HS256", "foo"]), "cty": lambda: pick(rng, ["JWT", "jwt", "Jwt", "json", "text/plain", "", "text/not-jwt", "jwt+x", "JW", "t", "jwtjwt", "JWE"]),
                        "typ": lambda: pick(rng, ["JWT", "JWE", "\u00e9"])}.get(k, self.value)()
        return h

    def part(self):
        """(value, record)"""
        rng = self.rng
        k = rng.random()
        if k < .5:
            x = self.data()
            return x, {"kind": "octets", "x": list(x), "j": ""}
        if k < .75:
            t = self.unicode()
            return t, {"kind": "octets", "x": list(t.encode()), "j": ""}
        v = pick(rng, [lambda: {self.unicode(): self.value() for _ in range(rng.randrange(4))}, lambda: [self.value() for _ in range(rng.randrange(3))],
                       lambda: {"iss": "me", "n": 5}, lambda: pick(rng, [0, 1, -5, 7.25, 2 ** 70, True, False, None])])()
        return v, {"kind": "json", "x": [], "j": canon(v)}

    def segs(self, tok):
        return [js(progs.b64loose(s) or b"") for s in tok.encode("utf-8").split(b".")]

    def pack(self):
        rng = self.rng
        h = self.headers()
        cls = pick(rng, [JWT, JWT, JWSig, JWEnc])
        given = dict(h)
        try:
            j = cls(**given)
        except Exception as e:
            self.rec.emit({"op": "pack", "parts": [], "headers": "", "out": {"kind": "err", "cls": type(e).__name__}}, {"what": "constructor", "h": h})
            return
        want = dict(h, alg=h.get("alg") or None)
        for _ in range(rng.randrange(1, 4)):
            ps = [self.part() for _ in range(rng.randrange(1, 6))]
            other = self.headers() if rng.random() < .3 else None
            vals = [p[0] for p in ps]
            copy = canon(vals)
            out = run(lambda: j.pack(vals, other) if other else j.pack(parts=vals), lambda t: t, str)
            tok = out.get("r")
            if tok is not None:
                out["r"], out["js"] = list(tok.encode()), self.segs(tok)
            if canon(vals) != copy:
                out = {"kind": "odd", "cls": "parts changed"}
            self.rec.emit({"op": "pack", "parts": [p[1] for p in ps], "headers": canon(other or want), "out": out}, {"what": "pack", "h": h, "parts": repr(ps)})
            if tok is not None and rng.random() < .6:
                r = run(lambda: j.pack(), octets, str)
                self.rec.emit({"op": "repack", "x": list(tok.encode()), "out": r}, {"what": "repack"})
            if tok is not None:
                self.unpack(tok.encode())

    def token(self):
        """octets that may be a token"""
        rng = self.rng
        h = self.headers()
        hdr = json.dumps(h, ensure_ascii=rng.random() < .5, separators=pick(rng, [(",", ":"), (", ", ": "), (" ,\n", "\t:")])).encode()
        if rng.random() < .1:
            hdr = pick(rng, [b"", b"{", b"[1]", b'"x"', b"null", b"5", b"{}", b"\xff", b"{'a':1}", b'{"a":1}x', b'{"a":1} ', b'{"alg":"none","alg":"HS256"}', b'{"a":"\\ud800"}'])
        n = weighted(rng, [(rng.randrange(1, 5), 6), (0, .5), (2, 3), (4, 3), (7, .3)])
        segs = [progs.b64u(hdr)] + [progs.b64u(self.payload_octets() if k == 0 else self.data()) for k in range(n)]
        if rng.random() < .25:
            segs[rng.randrange(len(segs))] = self.text()
        if rng.random() < .15:
            k = rng.randrange(len(segs))
            segs[k] += b"=" * (-len(segs[k]) % 4)
        return b".".join(segs)

    def payload_octets(self):
        rng = self.rng
        return weighted(rng, [(lambda: json.dumps(self.value()).encode(), 5), (lambda: self.unicode().encode(), 3), (lambda: bytes(pick(rng, b"\xc3\xff\x80{}5a") for _ in range(4)), 1),
                              (lambda: pick(rng, [b"", b"5", b"null", b'"x"', b"{", b'{"a":}', b" 5 ", b"[]", b"NaNx", b"tru", b"1e2", b"{}{}"]), 2)])()

    def unpack(self, tok):
        rng = self.rng
        cls = pick(rng, [JWT, JWSig, JWEnc])
        if rng.random() < .5:
            j = cls()
        else:
            j = cls(alg="RS256", kid="former", cty="x")
            if rng.random() < .5:
                try:
                    j.unpack(b"eyJhIjoxfQ.AAAA.BBBB.CC")
                except Exception:
                    pass
        form = tok
        if rng.random() < .5:
            try:
                form = tok.decode("utf-8")
            except UnicodeDecodeError:
                pass
        segs = tok.split(b".")
        hj = js(progs.b64loose(segs[0]) or b"") if len(segs) > 1 else ""
        if "NaN" in hj or "Infinity" in hj:
            return
        out = run(lambda: j.unpack(form))
        if out["kind"] == "ok":
            back = out.pop("r")
            try:
                out.update(b64=[octets(p) for p in j.b64part], parts=[octets(p) for p in j.part], headers=canon(j.headers))
                if back is not j:
                    raise Odd()
            except Exception as e:
                out = {"kind": "odd", "cls": repr(e), "syntax": False}
        self.rec.emit({"op": "unpack", "x": list(tok), "hj": hj, "out": out}, {"what": "unpack", "x": repr(form)})
        if out["kind"] != "ok" or len(segs) < 2 or any(progs.b64loose(s) is None for s in segs):
            return
        r = run(lambda: j.pack(), octets, str)
        self.rec.emit({"op": "repack", "x": list(tok), "out": r}, {"what": "repack"})
        self.access(cls, j, tok, len(segs))
        self.payload(j, progs.b64loose(segs[1]))

    ACC = {JWSig: [("signature", 3, False)],
           JWEnc: [("b64_protected_header", 1, True), ("b64_encrypted_key", 2, True), ("b64_initialization_vector", 3, True), ("b64_ciphertext", 4, True),
                   ("b64_authentication_tag", 5, True), ("protected_header", 1, False), ("encrypted_key", 2, False), ("initialization_vector", 3, False),
                   ("ciphertext", 4, False), ("authentication_tag", 5, False)]}

    def access(self, cls, j, tok, n):
        for nm, at, enc in self.ACC.get(cls, []):
            if at <= n and self.rng.random() < .5:
                self.rec.emit({"op": "access", "x": list(tok), "name": nm, "at": at, "enc": enc, "out": run(lambda: getattr(j, nm)(), octets)}, {"what": nm})
        if cls is not JWT:
            self.rec.emit({"op": "access", "x": list(tok), "name": "len", "at": 0, "enc": False, "out": run(lambda: len(j))}, {"what": "len"})
        if cls is JWSig:
            self.rec.emit({"op": "access", "x": list(tok), "name": "valid", "at": 0, "enc": False, "out": run(lambda: bool(j.valid()))}, {"what": "valid"})
            self.rec.emit({"op": "access", "x": list(tok), "name": "sign_input", "at": 0, "enc": False, "out": run(lambda: j.sign_input(), octets)}, {"what": "sign_input"})

    def payload(self, j, b):
        h = j.headers
        if not isinstance(h, dict) or not isinstance(h.get("cty", ""), str):
            return
        try:
            tx, v = canon(b.decode("utf-8")), js(b)
        except UnicodeDecodeError:
            tx, v = canon(b), ""
            if b"\0" in b or b[:2] in (b"\xff\xfe", b"\xfe\xff"):       # might be UTF-16: no statement about it
                return
        if b[:3] == b"\xef\xbb\xbf" or "NaN" in v or "Infinity" in v:
            return
        self.rec.emit({"op": "payload", "cty": "cty" in h, "jwt": h.get("cty", "").lower() == "jwt", "tx": tx, "j": v,
                       "out": run(lambda: j.payload(), canon)}, {"what": "payload", "b": repr(b), "h": h})

    def tokens(self):
        for _ in range(8):
            self.unpack(self.token())

    def steps(self, prop, behaviours=None, lists=None):
        while True:
            yield weighted(self.rng, [(self.small, 4), (self.around, 2), (self.pack, 6), (self.tokens, 4)])
