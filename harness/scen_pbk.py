"""Drives jwkest.PBKDF2: readers of derived keys and the crypt hash (C21)."""
import base64

from Cryptodome.Hash import SHA1, SHA256, SHA512

import progs
from common import pick, weighted

import jwkest.PBKDF2 as mod

DIGEST = {160: SHA1, 256: SHA256, 512: SHA512}
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789./"


def octets(x):
    return x.encode("utf-8") if isinstance(x, str) else x


class Scen(object):
    def __init__(self, rec, rng, programs):
        self.rec, self.rng, self.g = rec, rng, programs
        self.names, self.taken = 0, set()
        self.long = False

    def stream(self, pw, salt, count, bits, n):
        out = b""
        i = 0
        while len(out) < n:
            i += 1
            v = progs.run(self.g.pbk["first"], {"pass": octets(pw), "salt": octets(salt), "bits": bits, "i": i})
            for _ in range(count - 1):
                v = progs.run(self.g.pbk["step"], v)
            out += v["t"]
        return out[:n]

    def attempt(self, f):
        try:
            r = f()
        except Exception as e:
            return {"kind": "err", "cls": type(e).__name__, "r": "", "t": ""}
        if isinstance(r, (bytes, bytearray)):
            return {"kind": "ok", "r": bytes(r).hex(), "t": "bytes"}
        return {"kind": "ok", "r": r if isinstance(r, str) else "", "t": type(r).__name__}

    def text(self):
        return "".join(pick(self.rng, ["a", "Z", "0", " ", "\u00e9", "\u20ac", "\U0001f511", "\0", "$"]) for _ in range(self.rng.randrange(12)))

    def phrase(self):
        rng = self.rng
        n = weighted(rng, [(rng.randrange(1, 30), 5), (pick(rng, [19, 20, 21, 32, 63, 64, 65, 127, 128, 129]), 4), (0, .5), (300, .3)])
        return weighted(rng, [(rng.randbytes(n), 3), (self.text(), 3), ("x" * n, 2), (b"\0" * n, .5), (rng.randbytes(n // 2) + b"\0", .5), (rng.randbytes(n // 2) + b"\n", .5)])

    def count(self):
        return weighted(self.rng, [(1, 2), (2, 2), (3, 2), (self.rng.randrange(4, 60), 3), (1000, .15)])

    def emit(self, ev, **info):
        self.rec.emit(ev, dict({"what": "PBKDF2 " + ev["op"]}, **info))

    def open(self, like=None):
        rng = self.rng
        pw, salt, count, bits = like or (self.phrase(), self.phrase(), self.count(), pick(rng, [160, 160, 256, 512]))
        if like and rng.random() < .7:      # one thing different
            k = rng.randrange(4)
            pw, salt = (self.phrase() if k == 0 else pw), (self.phrase() if k == 1 else salt)
            count = count % 50 + 1 if k == 2 else count
            bits = pick(rng, [160, 256, 512]) if k == 3 else bits
        total = weighted(rng, [(rng.randrange(1, 90), 5), (rng.randrange(200, 700), 1)]) if count < 100 else rng.randrange(1, 50)
        if self.long and count < 4 and not like:      # more blocks than an octet counts
            total = bits // 8 * rng.choice([255, 256, 257, 258]) + rng.randrange(1, 20)
        kw, name = {}, "p%d" % self.names
        self.names += 1
        if bits != 160 or rng.random() < .2:
            kw["digestmodule"] = DIGEST[bits]
        if count != 1000 or rng.random() < .5:
            kw["iterations"] = count
        box = []
        out = self.attempt(lambda: box.append(mod.PBKDF2(pw, salt, **kw)))
        self.emit({"op": "new", "o": name, "valid": True, "stream": self.stream(pw, salt, count, bits, total).hex(), "out": out}, pw=pw, salt=salt, count=count, bits=bits)
        return [name, box[0], total, (pw, salt, count, bits)] if box else None

    def read(self, x, n, hexed):
        f = x[1].hexread if hexed else x[1].read
        self.emit({"op": "read", "o": x[0], "n": n, "hex": hexed, "out": self.attempt(lambda: f(n))}, n=n, args=x[3])
        x[2] -= n

    def readers(self):
        rng = self.rng
        self.rec.emit({"op": "reset"})
        self.long = rng.random() < .02
        rs = [self.open()]
        if rs[0] is None:
            return
        for _ in range(weighted(rng, [(0, 3), (1, 3), (2, 1)])):
            rs.append(self.open(rs[0][3]))
        rs = [r for r in rs if r]
        shut = []
        for _ in range(rng.randrange(2, 24)):
            if not rs:
                break
            x = pick(rng, rs)
            n = weighted(rng, [(0, 1), (1, 2), (rng.randrange(1, 70), 4), (pick(rng, [19, 20, 21, 32, 40, 64]), 3), (x[2], .5), (rng.randrange(1, 700), .3)])
            if self.long and rng.random() < .3:
                n = x[2] // rng.choice([1, 1, 2, 3])
            if n <= x[2]:
                self.read(x, n, rng.random() < .25)
            if rng.random() < .04:
                self.emit({"op": "close", "o": x[0], "out": self.attempt(x[1].close)})
                rs.remove(x)
                shut.append(x)
            if shut and rng.random() < .3:
                y = pick(rng, shut)
                if rng.random() < .8:
                    self.read(y, pick(rng, [0, 1, 20]), rng.random() < .3)
                else:
                    self.emit({"op": "close", "o": y[0], "out": self.attempt(y[1].close)})

    def bad(self):
        """arguments there is no key for"""
        rng = self.rng
        pw, salt, kw = self.phrase(), self.phrase(), {"iterations": 2}
        k = rng.randrange(4)
        if k == 0:
            pw = pick(rng, [None, 5, ["a"]])
        elif k == 1:
            salt = pick(rng, [None, 5, ["a"]])
        elif k == 2:
            kw["iterations"] = pick(rng, [0, -1, -1000])
        else:
            kw["iterations"] = pick(rng, ["5", None, 2.5])
        self.emit({"op": "new", "o": "bad", "valid": False, "stream": "", "out": self.attempt(lambda: mod.PBKDF2(pw, salt, **kw))}, pw=pw, salt=salt, kw=kw)

    def keys(self, word, prefix, counts):
        """what the hash ends in, by count"""
        return {str(c): base64.b64encode(self.stream(word, prefix(c), c, 160, 24), b"./").decode() for c in counts}

    @staticmethod
    def prefix(c):
        return "$p5k2$" + ("" if c == 400 else "%x" % c) + "$"

    def crypt(self):
        rng = self.rng
        word = self.phrase()
        salt = "".join(pick(rng, CHARS) for _ in range(weighted(rng, [(8, 4), (rng.randrange(20), 3)])))
        if rng.random() < .12:
            j = rng.randrange(len(salt) + 1)
            salt = salt[:j] + pick(rng, ["+", "-", "_", "=", " ", ":", "\n", "!"]) + salt[j:]
        hashed, complete, count, arg, rest = rng.random() < .5, True, "", -1, ""
        if rng.random() < .5:
            arg = weighted(rng, [(rng.randrange(1, 40), 5), (400, 1), (0, .5), (16, 1)])
        if hashed:
            c = weighted(rng, [(rng.randrange(1, 60), 5), (400, .6)])
            count = weighted(rng, [("%x" % c, 6), ("", 1.5), ("%X" % c, 1), ("0%x" % c, .5), ("0", .5), ("0x%x" % c, .3), (" %x" % c, .3), ("%x " % c, .3), ("+%x" % c, .3), ("-%x" % c, .3), ("z", .3)])
            rest = pick(rng, ["", "....", "".join(pick(rng, CHARS) for _ in range(32))])
            complete = rng.random() < .93
            given = "$p5k2$" + count + "$" + salt + ("$" + rest if complete else "")
        else:
            given = salt
        self.one(word, given, salt, hashed, complete, count, arg)

    def one(self, word, given, salt, hashed, complete, count, arg):
        rng = self.rng
        try:
            c = int(count, 16)
        except ValueError:
            c = 400
        if not hashed:
            c = 400 if arg == -1 else arg
        counts = {c} if c > 0 and salt.isascii() else set()
        keys = self.keys(word, lambda n: self.prefix(n) + salt, counts)
        g = given.encode() if rng.random() < .3 else given
        out = self.attempt(lambda: mod.crypt(word, g) if arg == -1 else mod.PBKDF2.crypt(word, g, iterations=arg))
        self.emit({"op": "crypt", "hashed": hashed, "complete": complete, "count": count, "salt": salt, "arg": arg, "keys": keys, "out": out}, word=word, given=given, arg=arg)
        if out["kind"] == "ok" and rng.random() < .5:       # the hash as the salt: the same hash again, another word's hash
            h = out["r"].split("$")
            if len(h) == 5:
                w2 = weighted(rng, [(word, 2), (self.phrase(), 1), (octets(word) + b"x", 1), (octets(word)[:-1], 1)])
                keys = self.keys(w2, lambda n: self.prefix(n) + salt, counts)
                arg = pick(rng, [-1, 7])
                out = self.attempt(lambda: mod.crypt(w2, out["r"]) if arg == -1 else mod.crypt(w2, out["r"], arg))
                self.emit({"op": "crypt", "hashed": True, "complete": True, "count": h[2], "salt": salt, "arg": arg, "keys": keys, "out": out}, word=w2, given="$".join(h), arg=arg)

    def own(self):
        word = self.phrase()
        out = self.attempt(lambda: mod.crypt(word))
        h = out["r"].split("$")
        salt = h[3] if len(h) == 5 else ""
        self.emit({"op": "own", "hashed": False, "complete": True, "count": "", "salt": salt, "again": salt in self.taken, "arg": -1,
                   "keys": self.keys(word, lambda n: self.prefix(n) + salt, {400}), "out": out}, word=word)
        self.taken.add(salt)

    def steps(self, prop, behaviours=None, lists=None):
        while True:
            yield weighted(self.rng, [(self.readers, 6), (self.bad, 1), (self.crypt, 3), (self.own, .3)])
