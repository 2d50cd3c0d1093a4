"""Drives jwkest.elliptic, jwkest.curves and jwkest.ecc and records what they
answer (events for spec/EcTrace.tla, C17)."""
from common import pick, weighted

from jwkest import curves, elliptic
from jwkest.ecc import NISTEllipticCurve

SMALL = [5, 7, 11, 13, 17, 19, 23]
MEDIUM = [29, 31, 37, 61, 67, 101, 127, 131, 251, 257, 509, 521, 1021, 4093, 8191, 32749]
LARGE = [2 ** 31 - 1, 2 ** 61 - 1, 2 ** 64 - 59, 2 ** 127 - 1, 2 ** 255 - 19, 2 ** 192 - 2 ** 64 - 1, 2 ** 521 - 1, 2 ** 89 - 1]
NIST = [256, 384, 521, 192, 224]


class Hurt(Exception):
    pass


def clean(x):
    """What a function returned, as nested lists of integers"""
    if x is None:
        return []
    if isinstance(x, bool):
        return x
    if isinstance(x, (tuple, list)):
        return [clean(y) for y in x]
    if isinstance(x, (bytes, bytearray)):
        return list(x)
    if isinstance(x, int):
        return x
    raise Hurt(type(x).__name__)


def small(x):
    """whether TLC can read it"""
    if isinstance(x, list):
        return all(small(y) for y in x)
    return isinstance(x, bool) or -2 ** 31 < x < 2 ** 31


def attempt(f):
    try:
        return {"kind": "ok", "r": clean(f())}
    except Hurt as e:
        return {"kind": "odd", "cls": str(e), "r": []}
    except Exception as e:
        return {"kind": "err", "cls": type(e).__name__, "r": []}


# ---- the curve specification on large numbers, by its programs

class Law(object):
    def __init__(self, progs, n, p, q):
        self.g, self.n, self.p, self.q = progs, n, p, q

    def run(self, prog, n=None, **env):
        n = n or self.n
        env["p"], env["q"] = self.p, self.q
        for r, f, a, b in prog:
            x, y = (int(v[1:]) if v[0] == "#" else env[v] for v in (a, b))
            env[r] = ((x + y) if f == "add" else (x - y) if f == "sub" else x * y if f == "mul" else x * pow(y, -1, n)) % n
        return env

    def add(self, P, Q):
        if not P or not Q:
            return P or Q
        if P[0] == Q[0] and (P[1] + Q[1]) % self.n == 0:
            return ()
        e = self.run(self.g["tangent" if P == Q else "chord"], x1=P[0], y1=P[1], x2=Q[0], y2=Q[1])
        return e["x"], e["y"]

    def mul(self, P, c):
        r = ()
        while c:
            if c & 1:
                r = self.add(r, P)
            P, c = self.add(P, P), c >> 1
        return r

    def neg(self, P):
        return (P[0], -P[1] % self.n) if P else ()

    def on(self, P):
        if not P:
            return True
        e = self.run(self.g["curve"], x=P[0], y=P[1])
        return e["lhs"] == e["rhs"]

    def affine(self, J):
        if not J:
            return []
        z = J[2] % self.n
        if not z or J[3] % self.n != z * z % self.n or J[4] % self.n != z ** 3 % self.n:
            return "not projective"
        i = pow(z, -1, self.n)
        return [J[0] * i * i % self.n, J[1] * i * i * i % self.n]

    def proj(self, P, z):
        return (P[0] * z * z % self.n, P[1] * z ** 3 % self.n, z, z * z % self.n, z ** 3 % self.n) if P else None


def points(n, p, q):
    roots = {}
    for y in range(n):
        roots.setdefault(y * y % n, []).append(y)
    return [(x, y) for x in range(n) for y in roots.get((x * x * x - p * x - q) % n, ())]


def is_prime(m):
    return m > 1 and all(m % k for k in range(2, int(m ** .5) + 1))


class Toy(object):
    """A curve with few points, of the library's own class"""

    def __init__(self, n, b, N, G):
        self.n, self.p, self.q, self.N, self.G = n, 3, n - b, N, G
        bits = n.bit_length()
        # the table of curves, as long as it has the shape it has now
        d = curves.DOMAINS
        old = d.get(bits)
        try:
            d[bits] = (n, N, b, G[0], G[1])
            self.lib = NISTEllipticCurve(bits)
        finally:
            if old is None:
                d.pop(bits, None)
            else:
                d[bits] = old
        c = self.lib
        self.good = (c.p, c.N, c.a, c.b, tuple(c.G), c.bytes) == (n, N, 3, n - b, tuple(G), (bits + 7) // 8)
        self.w = (bits + 7) // 8
        self.rec = {"n": n, "p": 3, "q": n - b, "N": N, "G": list(G)}


class Scen(object):
    def __init__(self, rec, rng, programs):
        self.rec, self.rng, self.g = rec, rng, programs.ec
        self.toys = self.make_toys()

    def make_toys(self):
        rng, out = self.rng, []
        ns = [7, 11, 13, 17, 19, 23, 31, 37, 61, 67, 101, 127, 131, 239, 251, 257, 263, 509, 521]
        for n in rng.sample(ns, 9):
            for _ in range(60):
                b = rng.randrange(1, n)
                if (4 * -27 + 27 * b * b) % n == 0:
                    continue
                ps = points(n, 3, n - b)
                N = len(ps) + 1
                if is_prime(N) and N > 3 and N.bit_length() <= 8 * ((n.bit_length() + 7) // 8):
                    try:
                        t = Toy(n, b, N, pick(rng, ps))
                    except Exception:
                        continue
                    if t.good:
                        t.pts = ps
                        out.append(t)
                    break
        return out

    def law(self, fn, C, out, **a):
        e = {"op": "law", "fn": fn, "C": C, "P": [], "Q": [], "c": 0, "d": 0}
        e.update(a)
        if out["kind"] == "ok" and not small(out["r"]):
            out = {"kind": "odd", "cls": "huge", "r": []}
        e["out"] = out
        self.rec.emit(e, {"what": fn})

    # -- small curves, decided by TLC

    def curve(self, n):
        rng = self.rng
        while True:
            p, q = (3 % n if rng.random() < .4 else rng.randrange(n)), rng.randrange(n)
            if (-4 * p ** 3 + 27 * q * q) % n:
                return p, q

    def scalar(self, n):
        rng = self.rng
        return weighted(rng, [(0, 1), (1, 1), (2, 1), (3, 1), (rng.randrange(4, 2 * n + 8), 8), (2 ** rng.randrange(2, 16) + rng.choice([-1, 0, 1]), 5),
                              (rng.randrange(2 ** 20), 3), (sum(1 << rng.randrange(18) for _ in range(3)), 2)])

    def small(self):
        rng = self.rng
        n = pick(rng, SMALL if rng.random() < .6 else MEDIUM)
        if n < 600:
            p, q = self.curve(n)
            pts = [None] + points(n, p, q)
        else:       # a curve through a chosen point, and its multiples
            while True:
                p, x, y = rng.randrange(n), rng.randrange(n), rng.randrange(n) if rng.random() < .9 else 0
                q = (x * x * x - p * x - y * y) % n
                if (-4 * p ** 3 + 27 * q * q) % n:
                    break
            L = Law(self.g, n, p, q)
            pts = [None] + [L.mul((x, y), k) or None for k in (1, 2, 3, 5, rng.randrange(n))]
        C = {"n": n, "p": p, "q": q}
        L = Law(self.g, n, p, q)
        E = elliptic
        two = [P for P in pts if P and P[1] == 0]

        def pt():
            if two and rng.random() < .1:
                return pick(rng, two)
            return None if rng.random() < .06 else pick(rng, pts)

        def pair():
            P = pt()
            return P, weighted(rng, [(pt(), 6), (P, 2), (L.neg(P or ()) or None, 2)])

        for _ in range(14):
            fn = pick(rng, ["add", "add", "neg", "mul", "mulp", "mulp", "muladdp", "muladdp", "addf", "addf", "doublef", "negf", "mulf", "muladdf",
                            "toproj", "fromproj", "element", "inv", "curveq", "expand", "compress"])
            P, Q = pair()
            c, d = self.scalar(n), self.scalar(n)
            l = lambda x: list(x) if x else []
            z = lambda: rng.randrange(1, n)
            J, K = L.proj(P or (), z()), L.proj(Q or (), z())
            if fn == "add":
                self.law(fn, C, attempt(lambda: E.add(p, q, n, P, Q)), P=l(P), Q=l(Q))
            elif fn == "neg":
                self.law(fn, C, attempt(lambda: E.neg(P, n)), P=l(P))
            elif fn in ("mul", "mulp"):
                self.law(fn, C, attempt(lambda: getattr(E, fn)(p, q, n, P, c)), P=l(P), c=c)
            elif fn == "muladdp":
                self.law(fn, C, attempt(lambda: E.muladdp(p, q, n, P, c, Q, d)), P=l(P), Q=l(Q), c=c, d=d)
            elif fn == "addf":
                self.law(fn, C, attempt(lambda: E.addf(p, q, n, J, K)), P=l(J), Q=l(K))
            elif fn == "doublef":
                self.law(fn, C, attempt(lambda: E.doublef(p, q, n, J)), P=l(J))
            elif fn == "negf":
                self.law(fn, C, attempt(lambda: E.neg(J, n)), P=l(J))
            elif fn == "mulf":
                self.law(fn, C, attempt(lambda: E.mulf(p, q, n, J, c)), P=l(J), c=c)
            elif fn == "muladdf":
                self.law(fn, C, attempt(lambda: E.muladdf(p, q, n, J, c, K, d)), P=l(J), Q=l(K), c=c, d=d)
            elif fn == "toproj":
                self.law(fn, C, attempt(lambda: E.to_projective(P)), P=l(P))
            elif fn == "fromproj":
                self.law(fn, C, attempt(lambda: E.from_projective(J, n)), P=l(J))
            elif fn == "element":
                R = P if rng.random() < .4 else (rng.randrange(n), rng.randrange(n))
                self.law(fn, C, attempt(lambda: E.element(R, p, q, n)), P=l(R))
            elif fn == "inv":
                a = rng.randrange(1, n) if rng.random() < .8 else n * rng.randrange(1, 4) + rng.randrange(1, n)
                self.law(fn, C, attempt(lambda: E.inv(a, n)), c=a)
            elif fn == "expand" and n > 2:
                x, s = (P[0], P[1] % 2) if P and rng.random() < .6 else (rng.randrange(n), rng.randrange(2))
                self.law(fn, C, attempt(lambda: [x, E.y_from_x(x, p, q, n, s)]), P=[x, s])
            elif fn == "compress" and P:
                self.law(fn, C, attempt(lambda: NISTEllipticCurve.compress(P)), P=l(P))
            elif fn == "curveq":
                R = (rng.randrange(n), rng.randrange(n))
                self.law(fn, C, attempt(lambda: E.curve_q(R[0], R[1], p, n)), P=l(R))

    def table(self):
        """The whole addition table of a small curve, both ways"""
        rng = self.rng
        n = pick(rng, [5, 7, 11, 13])
        p, q = self.curve(n)
        C = {"n": n, "p": p, "q": q}
        L = Law(self.g, n, p, q)
        pts = [None] + points(n, p, q)
        E = elliptic
        l = lambda x: list(x) if x else []
        for P in pts:
            for Q in pts:
                if rng.random() < .5:
                    self.law("add", C, attempt(lambda: E.add(p, q, n, P, Q)), P=l(P), Q=l(Q))
                else:
                    J, K = L.proj(P or (), rng.randrange(1, n)), L.proj(Q or (), rng.randrange(1, n))
                    self.law("addf", C, attempt(lambda: E.addf(p, q, n, J, K)), P=l(J), Q=l(K))

    def multiples(self):
        rng = self.rng
        n = pick(rng, [5, 7, 11, 13, 17])
        p, q = self.curve(n)
        C = {"n": n, "p": p, "q": q}
        pts = points(n, p, q)
        if not pts:
            return
        P, Q = pick(rng, pts), pick(rng, pts)
        E = elliptic
        for c in range(40):
            fn = pick(rng, ["mulp", "mul"])
            self.law(fn, C, attempt(lambda: getattr(E, fn)(p, q, n, P, c)), P=list(P), c=c)
            d = rng.randrange(40)
            self.law("muladdp", C, attempt(lambda: E.muladdp(p, q, n, P, c, Q, d)), P=list(P), Q=list(Q), c=c, d=d)

    # -- ECDSA on small curves

    def digest(self, N):
        """an integer that is a digest as long as the order, or longer with the first bit set"""
        rng = self.rng
        b = N.bit_length()
        return weighted(rng, [(rng.randrange(2 ** b), 6), (0, 1), (N, 1), (N + 1 if N + 1 < 2 ** b else N, 1), (2 ** b - 1, 1), (N - 1, 1),
                              ((1 << (b + 4)) | rng.randrange(1 << (b + 4)), 2), ((1 << (b + 7)) + rng.randrange(1 << (b + 2)), 2)])

    def ecdsa(self):
        rng = self.rng
        if not self.toys:
            return
        t = pick(rng, self.toys)
        c, N, w = t.lib, t.N, t.w
        L = Law(self.g, t.n, t.p, t.q)

        def rs(h, d, k):
            R = L.mul(t.G, k)
            z = h
            while z.bit_length() > N.bit_length():
                z >>= 1
            r = R[0] % N if R else 0
            return r, pow(k, -1, N) * (z + r * d) % N

        for _ in range(6):
            d = rng.randrange(1, N)
            h = self.digest(N)
            k = rng.randrange(1, N)
            usable = [x for x in (rng.randrange(1, N) for _ in range(40)) if all(rs(h, d, x))]
            out = attempt(lambda: c.sign(h, d, k))
            self.rec.emit({"op": "sign", "C": t.rec, "w": w, "h": h, "d": d, "k": k, "out": out}, {"what": "nonce"})
            if usable:
                out = attempt(lambda: c.sign(h, d))
                self.rec.emit({"op": "sign", "C": t.rec, "w": w, "h": h, "d": d, "k": 0, "out": out}, {"what": "sign"})
            Q = L.mul(t.G, d)
            for _ in range(6):
                r, s = rs(h, d, rng.randrange(1, N))
                x = rng.random()
                h2, Q2 = h, Q
                if x < .2:
                    s = N - s
                elif x < .3:
                    r = r + N
                elif x < .4:
                    s = s + N
                elif x < .5:
                    r = pick(rng, [0, N, r + 1, r - 1, 2 ** (8 * w) - 1])
                elif x < .6:
                    s = pick(rng, [0, N, s + 1, s - 1, 2 ** (8 * w) - 1])
                elif x < .7:
                    r, s = rng.randrange(1, N), rng.randrange(1, N)
                elif x < .76:       # u1 G + u2 Q is the neutral element
                    h2 = -r * d % N
                elif x < .82:       # u1 G = u2 Q
                    h2 = r * d % N
                elif x < .86:
                    Q2 = pick(rng, t.pts)
                r, s = r % 256 ** w, s % 256 ** w
                sig = r.to_bytes(w, "big") + s.to_bytes(w, "big")
                if rng.random() < .25:
                    sig = pick(rng, [sig[:-1], sig + b"\0", b"\0" + sig, b"", sig[:w], sig[w:] + sig[:w], sig + sig, b"\0" * (2 * w), sig[1:],
                                     bytes([rng.randrange(256) for _ in range(rng.randrange(3 * w + 2))])])
                out = attempt(lambda: c.verify(h2, sig, Q2))
                self.rec.emit({"op": "verify", "C": t.rec, "w": w, "h": h2, "sig": list(sig), "Q": list(Q2), "out": out}, {"what": "verify"})

    def every(self):
        """every r and s of a very small curve"""
        rng = self.rng
        ts = [t for t in self.toys if t.N < 24]
        if not ts:
            return
        t = pick(rng, ts)
        c, N, w = t.lib, t.N, t.w
        d, h = rng.randrange(1, N), rng.randrange(N)
        Q = Law(self.g, t.n, t.p, t.q).mul(t.G, d)
        for r in range(N + 2):
            for s in range(N + 2):
                sig = bytes([r, s])
                out = attempt(lambda: c.verify(h, sig, Q))
                self.rec.emit({"op": "verify", "C": t.rec, "w": w, "h": h, "sig": list(sig), "Q": list(Q), "out": out}, {"what": "verify"})

    def pairs(self):
        rng = self.rng
        if not self.toys:
            return
        for _ in range(6):
            t = pick(rng, self.toys)
            out = attempt(lambda: t.lib.key_pair())
            if out["kind"] == "ok":
                out = {"kind": "ok", "d": out["r"][0], "Q": out["r"][1]}
            self.rec.emit({"op": "pair", "C": t.rec, "out": out}, {"what": "pair"})
            d = rng.randrange(1, t.N)
            out = attempt(lambda: t.lib.public_key_for(d))
            self.rec.emit({"op": "pub", "C": t.rec, "d": d, "out": out}, {"what": "pub"})
            Q = pick(rng, t.pts)
            out = attempt(lambda: t.lib.dh_z(d, Q))
            self.rec.emit({"op": "dh", "C": t.rec, "w": t.w, "d": d, "Q": list(Q), "out": out}, {"what": "dh"})

    # -- large curves, decided by the programs

    def big(self, what, want, out, info=None):
        def txt(x):
            return x if isinstance(x, (bool, str)) else ["%x" % y for y in x] if isinstance(x, list) else "%x" % x
        out = dict(out)
        if out["kind"] == "ok":
            out["r"] = txt(out["r"])
        else:
            out["r"] = ""
        self.rec.emit({"op": "big", "what": what, "want": txt(want), "out": out}, dict({"what": what}, **(info or {})))

    def lists(self, P):
        return list(P) if P else []

    def large(self):
        rng, E = self.rng, elliptic
        if rng.random() < .6:
            n, N, p, q, G = self.nist(pick(rng, NIST))
        else:
            n = pick(rng, LARGE)
            p, N = rng.randrange(n), n
            G = (rng.randrange(n), rng.randrange(n) if rng.random() < .93 else 0)
            q = (G[0] ** 3 - p * G[0] - G[1] ** 2) % n
        L = Law(self.g, n, p, q)
        P = L.mul(G, rng.randrange(1, N))
        Q = weighted(rng, [(L.mul(G, rng.randrange(1, N)), 5), (P, 1), (L.neg(P), 1), ((), 1), (L.add(P, P), 1)])
        if rng.random() < .05:
            P = ()
        c, d = self.wide(N), self.wide(N)
        z = lambda: rng.randrange(1, n)
        J, K = L.proj(P, z()), L.proj(Q, z())
        o = lambda x: x or None
        info = {"n": hex(n), "P": repr(P), "Q": repr(Q), "c": hex(c), "d": hex(d)}
        A = lambda f: (lambda r: dict(r, r=L.affine(r["r"]) if r["kind"] == "ok" else []))(attempt(f))

        def proj(what, want, f):
            r = A(f)
            self.big(what, self.lists(want), r if r["r"] != "not projective" else {"kind": "odd"}, info)
        self.big("add", self.lists(L.add(P, Q)), attempt(lambda: E.add(p, q, n, o(P), o(Q))), info)
        self.big("neg", self.lists(L.neg(P)), attempt(lambda: E.neg(o(P), n)), info)
        proj("addf", L.add(P, Q), lambda: E.addf(p, q, n, J, K))
        proj("doublef", L.add(P, P), lambda: E.doublef(p, q, n, J))
        cP, dQ = L.mul(P, c), L.mul(Q, d)
        fn = pick(rng, ["mul", "mulp"])
        self.big(fn, self.lists(cP), attempt(lambda: getattr(E, fn)(p, q, n, o(P), c)), info)
        proj("mulf", cP, lambda: E.mulf(p, q, n, J, c))
        if rng.random() < .5:
            self.big("muladdp", self.lists(L.add(cP, dQ)), attempt(lambda: E.muladdp(p, q, n, o(P), c, o(Q), d)), info)
        else:
            proj("muladdf", L.add(cP, dQ), lambda: E.muladdf(p, q, n, J, c, K, d))
        R = P if rng.random() < .5 else weighted(rng, [((P[0], P[1] ^ 1), 1), ((P[0] ^ 1, P[1]), 1), ((P[0], P[0]), 1)]) if P else ()
        if not R or max(R) < n:
            self.big("element", L.on(R), attempt(lambda: E.element(o(R), p, q, n)), info)
        self.big("inv", pow(c or 1, -1, n) if (c or 1) % n else 0, attempt(lambda: E.inv(c or 1, n)) if (c or 1) % n else {"kind": "ok", "r": 0}, info)

    def compressed(self):
        """points of the standard curves, and abscissas without any"""
        rng = self.rng
        bits = pick(rng, [192, 224, 256, 384, 521, 128, 160])
        c = NISTEllipticCurve(bits)
        b, n, N, p, q, G = curves.get_curve(bits)
        L = Law(self.g, n, p, q)
        P = L.mul(G, rng.randrange(1, N or n // 2))
        info = {"bits": bits, "P": repr(P)}
        self.big("compress", [P[0], P[1] % 2], attempt(lambda: c.compress(P)), info)
        self.big("uncompress", [P[0], P[1]], attempt(lambda: c.uncompress((P[0], P[1] % 2))), info)
        self.big("uncompress", [P[0], n - P[1]], attempt(lambda: c.uncompress((P[0], 1 - P[1] % 2))), info)
        x = rng.randrange(n)
        square = pow((x ** 3 - p * x - q) % n, (n - 1) // 2, n)
        if square == n - 1:
            r = attempt(lambda: c.uncompress((x, rng.randrange(2))))
            self.big("uncompress", "refused", {"kind": "ok", "r": "refused" if r["kind"] == "err" else repr(r)}, dict(info, x=x))

    def wide(self, N):
        rng = self.rng
        b = N.bit_length()
        return weighted(rng, [(rng.randrange(N), 6), (rng.randrange(1 << b), 1), (N, 1), (N - 1, 1), (N + 1, 1), (0, .5), (1, .5), (2, .5),
                              (1 << rng.randrange(b), 1), ((1 << rng.randrange(1, b)) - 1, 1), (rng.randrange(1 << rng.randrange(1, b)), 1),
                              (((1 << b) - 1) // 3, .5), ((1 << b) - 1 - rng.randrange(1 << 20), .5)])

    def nist(self, bits):
        b, n, N, p, q, G = curves.get_curve(bits)
        return n, N, p, q, G

    def large_ecdsa(self):
        rng = self.rng
        bits = pick(rng, [256, 384, 521, 256, 384, 521, 192, 224])
        c = NISTEllipticCurve(bits) if bits < 256 else pick(rng, [NISTEllipticCurve.by_name("P-%d" % bits), NISTEllipticCurve(bits)])
        n, N, p, q, G = self.nist(bits)
        L, w = Law(self.g, n, p, q), (bits + 7) // 8
        d = weighted(rng, [(rng.randrange(1, N), 6), (1, 1), (N - 1, 1), (2, 1)])
        Q = L.mul(G, d)
        h = weighted(rng, [(rng.randrange(1 << min(bits, 512)), 6), (0, 1), (N, 1), (N - 1, 1), ((1 << N.bit_length()) - 1, 1), (rng.randrange(1 << 160), 1),
                           ((1 << 639) | rng.randrange(1 << 639), 1)])
        k = rng.randrange(1, N)

        def trunc(h):
            return h >> max(0, h.bit_length() - N.bit_length())

        def ok(h, sig, Q):
            if len(sig) != 2 * w:
                return False
            r, s = int.from_bytes(sig[:w], "big"), int.from_bytes(sig[w:], "big")
            if not (0 < r < N and 0 < s < N):
                return False
            u = L.run(self.g["verify"], N, c=trunc(h), r=r, s=s)
            R = L.add(L.mul(G, u["u1"]), L.mul(Q, u["u2"]))
            return bool(R) and R[0] % N == r
        r = L.mul(G, k)[0] % N
        s = L.run(self.g["sign"], N, r=r, d=d, c=trunc(h), k=k)["s"]
        sig = r.to_bytes(w, "big") + s.to_bytes(w, "big")
        info = {"bits": bits, "h": hex(h), "d": hex(d), "k": hex(k)}
        out = attempt(lambda: bytes(c.sign(h, d, k)).hex())if False else self.hexed(lambda: c.sign(h, d, k))
        self.big("sign", sig.hex(), out, info)
        mine = self.hexed(lambda: c.sign(h, d))
        self.big("signed", True, {"kind": mine["kind"], "r": mine["kind"] == "ok" and ok(h, bytes.fromhex(mine["r"]), Q)}, info)
        for _ in range(3):
            h2, Q2, r2, s2 = h, Q, r, s
            x = rng.randrange(12)
            if x == 0:
                s2 = N - s
            elif x == 1:
                r2 = r + N
            elif x == 2:
                s2 = s + N
            elif x == 3:
                r2 = pick(rng, [0, N, r ^ 1, N - r])
            elif x == 4:
                s2 = pick(rng, [0, N, s ^ 1])
            elif x == 5:
                h2 = -r * d % N
            elif x == 6:
                h2 = r * d % N
                s2 = L.run(self.g["sign"], N, r=r, d=d, c=h2, k=k)["s"]
            elif x == 7:
                Q2 = L.mul(G, rng.randrange(1, N))
            elif x == 8:
                h2 = h ^ 1
            elif x == 9:
                r2, s2 = s, r
            if max(r2, s2) >> (8 * w):
                r2, s2 = r2 % N, s2 % N
            sg = r2.to_bytes(w, "big") + s2.to_bytes(w, "big")
            if x == 10:
                sg = pick(rng, [sg[:-1], sg + b"\0", b"\0" + sg, b"", sg[:w], sg[1:], sg + sg, b"\0" * (2 * w), sg[:w] + b"\0" + sg[w:]])
            self.big("verify", ok(h2, sg, Q2), attempt(lambda: c.verify(h2, sg, Q2)), dict(info, x=x, sig=sg.hex()))

    def hexed(self, f):
        try:
            return {"kind": "ok", "r": bytes(f()).hex()}
        except Exception as e:
            return {"kind": "err", "cls": type(e).__name__, "r": ""}

    def large_keys(self):
        rng = self.rng
        bits = pick(rng, [256, 384, 521])
        c = NISTEllipticCurve.by_name("P-%d" % bits)
        n, N, p, q, G = self.nist(bits)
        L, w = Law(self.g, n, p, q), (bits + 7) // 8
        r = attempt(c.key_pair)
        if r["kind"] == "ok":
            d, Q = r["r"]
            self.big("key_pair", True, {"kind": "ok", "r": 0 < d < N and Q == list(L.mul(G, d))})
        else:
            self.big("key_pair", True, r)
        d = weighted(rng, [(rng.randrange(1, N), 5), (1, 1), (2, 1), (N - 1, 2), (N - 2, 1)])
        self.big("public_key_for", list(L.mul(G, d)), attempt(lambda: c.public_key_for(d)), {"d": hex(d)})
        Q = L.mul(G, rng.randrange(1, N))
        self.big("dh_z", L.mul(Q, d)[0].to_bytes(w, "big").hex(), self.hexed(lambda: c.dh_z(d, Q)), {"d": hex(d)})
        x = weighted(rng, [(rng.randrange(256 ** w), 3), (rng.randrange(256 ** (w - 1)), 3), (0, 1), (1, 1), (rng.randrange(256), 1)])
        self.big("int2bytes", x.to_bytes(w, "big").hex(), self.hexed(lambda: c.int2bytes(x)))
        self.big("bytes2int", x, attempt(lambda: c.bytes2int(x.to_bytes(w + rng.randrange(2), "big"))))

    def domain(self):
        rng = self.rng
        for bits in NIST:
            def f():
                b, n, N, p, q, G = curves.get_curve(bits)
                if b != bits or p != 3:
                    raise ValueError("a")
                c = NISTEllipticCurve(bits)
                if (c.bits, c.p, c.N, c.a, c.b, tuple(c.G), c.bytes) != (bits, n, N, p, q, tuple(G), (bits + 7) // 8):
                    raise ValueError("class")
                return {"n": "%x" % n, "order": "%x" % N, "b": "%x" % (-q % n), "x": "%x" % G[0], "y": "%x" % G[1]}
            try:
                out = {"kind": "ok", "r": f()}
            except Exception as e:
                out = {"kind": "err", "cls": type(e).__name__}
            self.rec.emit({"op": "domain", "bits": bits, "out": out}, {"what": "domain"})
        for nm in ["P-256", "P-384", "P-521", "P-192", "P-224", "p-256", "P-255", "P-2566", "", "secp256k1", "P-256\n", "None", " P-256", "P-5211", "P521"]:
            try:
                c = NISTEllipticCurve.by_name(nm.encode() if rng.random() < .3 else nm)
                out = {"kind": "ok", "bits": c.bits, "name": c.name()}
            except Exception as e:
                out = {"kind": "err", "cls": type(e).__name__}
            self.rec.emit({"op": "named", "name": nm, "out": out}, {"what": "named"})

    def steps(self, prop, behaviours=None, lists=None):
        rng = self.rng
        yield self.domain
        while True:
            yield weighted(rng, [(self.small, 10), (self.table, 1), (self.multiples, 1), (self.ecdsa, 5), (self.every, .5), (self.pairs, 1),
                                 (self.large, 2), (self.compressed, .7), (self.large_ecdsa, 2), (self.large_keys, .7)])
