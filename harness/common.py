"""Shared parts of the drivers: key pool, key factory, naming of values,
recording of events."""
import hashlib
import json
import math
import os
import random
import sys
import threading

import net
import progs
from progs import EcMat, RsaMat

from Cryptodome.PublicKey import ECC, RSA
from Cryptodome.Util.number import getPrime
from jwkest.jwk import ECKey, Key, KEYS, RSAKey, SYMKey, keyrep

HERE = os.path.dirname(os.path.abspath(__file__))


def load_pool():
    with open(os.path.join(HERE, "keys.json")) as f:
        d = json.load(f)
    pool = {}
    for n, v in d.items():
        v = dict(v)
        kty = v.pop("kty")
        pool[n] = (RsaMat(**v) if kty == "RSA" else EcMat(**v) if kty == "EC"
                   else bytes.fromhex(v["k"]))
    return pool


POOL = load_pool()


def kty_of(m):
    return "oct" if isinstance(m, bytes) else m.kty


def crv_of(m):
    return m.crv if isinstance(m, EcMat) else ""


def size_of(m):
    return m.n.bit_length() if isinstance(m, RsaMat) else 0


def matid(m):
    """Identity of the material (public part for asymmetric keys)"""
    if isinstance(m, bytes):
        return ("oct", m)
    if isinstance(m, RsaMat):
        return ("RSA", m.n, m.e)
    return ("EC", m.crv, m.x, m.y)


NAMES = {matid(m): n for n, m in POOL.items()}


def matname(m):
    i = matid(m)
    if i not in NAMES:
        NAMES[i] = "x" + hashlib.sha256(repr(i).encode()).hexdigest()[:10]
        POOL[NAMES[i]] = m
    return NAMES[i]


# ---------------------------------------------------------------------------
# keys beyond the fixed pool

def some_secret(rng):
    """The octets of a secret: any number of them, and ends that careless code
    takes for something else"""
    n = rng.choice([1, 2, 8, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 130])
    r = rng.randrange(4)
    b = (rng.randbytes(n) if r < 2 else bytes(rng.choice(b"ABCDEFabcdef0123456789 -_+/=.,") for _ in range(n)) if r == 2
         else "".join(rng.choice("p\u00e5\u00dfw\u00f6rd \u4e2d") for _ in range(n)).encode()[:n])
    ends = [b"", b"", b"\n", b"\r\n", b"\0", b" ", b"\t", b"=", b"==", b"\xff", b"\x80"]
    if rng.random() < .6:
        b = rng.choice(ends) + b + rng.choice(ends)
    return b


def some_ec(rng, crv):
    n = progs.ORDER[crv]
    d = rng.choice([rng.randrange(1, n), rng.randrange(1, n), rng.getrandbits(rng.randrange(2, n.bit_length())) | 1, n - 1 - rng.getrandbits(8)])
    k = ECC.construct(curve=crv, d=d)
    return EcMat(crv, int(k.pointQ.x), int(k.pointQ.y), d)


def some_rsa(rng, least):
    bits, e = rng.choice([b for b in (512, 521, 600, 768, 1000, 1024, 1032, 1041, 1100, 1537) if b >= least]), rng.choice([3, 5, 17, 257, 65537, 65537, (1 << 32) + 15])
    while True:
        p, q = getPrime((bits + 1) // 2, rng.randbytes), getPrime(bits // 2, rng.randbytes)
        if p != q and (p * q).bit_length() == bits and math.gcd(e, (p - 1) * (q - 1)) == 1:
            return RsaMat(p * q, e, pow(e, -1, (p - 1) * (q - 1)), p, q)


RSAS_MADE = []


def fresh(rng, kty, crv="P-256", least=1024):
    """The name of a key nobody has seen before (RSA keys are made a few times
    per run only)"""
    if kty == "oct":
        return matname(some_secret(rng))
    if kty == "EC":
        return matname(some_ec(rng, crv))
    made = [x for x in RSAS_MADE if POOL[x].n.bit_length() >= least]
    if len(made) < 6 or rng.random() < .01:
        RSAS_MADE.append(matname(some_rsa(rng, least)))
        return RSAS_MADE[-1]
    return rng.choice(made)


ODDITIES = ["e\u0301", "\u212b", "\ufb01", "\ufeff", "\u2028", "\r\n", "\r", "\x85", "\u00a0", "\u200d", "\u0130", "\u00df", "\ud7ff", "\uffff", "\U0010ffff", "\x7f",
            "\x00", " ", "\t", "\\u0041", "%41", "+", "&amp;", "\u00c5", "\x1b", "A", "a", "."]


def odd_text(rng):
    """A text that whoever tampers with texts would change"""
    return "".join(rng.choice(ODDITIES) for _ in range(rng.randrange(1, 9)))


def u(b):
    return progs.b64u(b).decode()


def jwk_of(m, private=True, **attrs):
    """The conforming JWK, as a dict of text"""
    if isinstance(m, bytes):
        d = {"kty": "oct", "k": u(m)}
    elif isinstance(m, RsaMat):
        d = {"kty": "RSA", "n": u(progs.i2b(m.n)), "e": u(progs.i2b(m.e))}
        if private and m.d:
            d.update(d=u(progs.i2b(m.d)), p=u(progs.i2b(m.p)), q=u(progs.i2b(m.q)))
    else:
        w = progs.WIDTH[m.crv]
        d = {"kty": "EC", "crv": m.crv, "x": u(progs.i2b(m.x, w)), "y": u(progs.i2b(m.y, w))}
        if private and m.d:
            d["d"] = u(progs.i2b(m.d, w))
    d.update({k: v for k, v in attrs.items() if v})
    return d


def mat_of_jwk(d):
    """Material a JWK dict announces, or None"""
    def num(s):
        return int.from_bytes(progs.b64loose(s.encode()), "big")
    try:
        if d["kty"] == "oct":
            return progs.b64loose(d["k"].encode())
        if d["kty"] == "RSA":
            return RsaMat(num(d["n"]), num(d["e"]))
        if d["kty"] == "EC":
            return EcMat(d["crv"], num(d["x"]), num(d["y"]))
    except Exception:
        pass
    return None


def native_rsa(m, private=True):
    return RSA.construct((m.n, m.e, m.d, m.p, m.q) if private and m.d else (m.n, m.e), consistency_check=False)


HOWS = {"RSA": ["jwk", "keyrep", "jwks", "native", "load"], "EC": ["jwk", "keyrep", "jwks", "ints", "again"],
        "oct": ["jwk", "keyrep", "jwks", "key"]}


def build(m, private=True, how="jwk", kid="", use="", alg=""):
    """A key object of the library, made in one of several ways"""
    at = {k: v for k, v in dict(kid=kid, use=use, alg=alg).items() if v}
    d = jwk_of(m, private, **at)
    if how == "keyrep":
        return keyrep(d)
    if how == "jwks":
        ks = KEYS()
        ks.load_jwks(json.dumps({"keys": [d]}))
        return ks.keys()[0]
    if how == "native":
        return RSAKey(key=native_rsa(m, private), **at)
    if how == "load":
        return RSAKey(**at).load_key(native_rsa(m, private))
    if how == "ints":
        return ECKey(crv=m.crv, x=m.x, y=m.y, **dict(at, **({"d": m.d} if private and m.d else {})))
    if how == "key":
        return SYMKey(key=m, **at)
    cls = {"RSA": RSAKey, "EC": ECKey, "oct": SYMKey}[d["kty"]]
    k = cls(**d)
    if how == "again":
        k = cls(**k.serialize(private))
    return k


def keyrec(m, private=True, kid="", use="", alg="", **_):
    return {"mat": matname(m), "kty": kty_of(m), "crv": crv_of(m), "kid": kid, "use": use, "alg": alg,
            "priv": isinstance(m, bytes) or bool(private and m.d), "size": size_of(m)}


class K(object):
    """A key object of the library together with its description"""
    cache = {}

    def __init__(self, m, private=True, how=None, kid="", use="", alg="", fresh=False):
        if isinstance(m, str):
            m = POOL[m]
        self.m = m
        how = how or "jwk"
        self.rec = keyrec(m, private, kid, use, alg)
        ck = (self.rec["mat"], private, how, kid, use, alg)
        if fresh:
            self.key = build(m, private, how, kid, use, alg)
        else:
            if len(self.cache) > 20000:
                self.cache.clear()
            if ck not in self.cache:
                self.cache[ck] = build(m, private, how, kid, use, alg)
            self.key = self.cache[ck]


def foreign_key(kty="foo", kid=""):
    """A key of a type the library does not know"""
    k = K.__new__(K)
    k.m = b""
    k.key = Key(kty=kty, kid=kid, key=b"x")
    k.rec = {"mat": "foreign", "kty": kty, "crv": "", "kid": kid, "use": "", "alg": "", "priv": False, "size": 0}
    return k


def canon(v):
    """A JSON value as canonical text; bytes and other values too"""
    def conv(x):
        if isinstance(x, bytes):
            return {"\0b": x.hex()}
        if isinstance(x, dict):
            return {str(k): conv(y) for k, y in x.items()}
        if isinstance(x, (list, tuple)):
            return [conv(y) for y in x]
        return x
    return json.dumps(conv(v), sort_keys=True)


def name(v):
    """A short name for a value: equal names iff equal values and types"""
    if isinstance(v, bytes):
        return "b:" + hashlib.sha256(v).hexdigest()[:20]
    if isinstance(v, str):
        return "t:" + hashlib.sha256(v.encode("utf-8", "surrogatepass")).hexdigest()[:20]
    try:
        c = type(v).__name__ + canon(v)
    except (TypeError, ValueError, RecursionError):
        c = "?" + type(v).__name__ + repr(v)[:2000]
    return "j:" + hashlib.sha256(c.encode("utf-8", "surrogatepass")).hexdigest()[:20]


def snap_key(k):
    """What can be seen of a key"""
    try:
        s = k.serialize(private=True) if not isinstance(k, SYMKey) else k.serialize()
    except Exception as e:
        s = repr(type(e))
    return canon([s, k.kty, k.use, k.kid, k.alg, list(k.x5c), k.x5t, k.x5u])


def snap(keys):
    if keys is None:
        return None
    ks = list(keys)
    return (type(keys).__name__, [id(k) for k in ks], [snap_key(k) for k in ks])


LOCK, THREADED = threading.Lock(), [False]


def lib(fn, *a, **k):
    """Calls the code under test; several threads of a driver may be inside it
    at the same time, but in nothing else"""
    if not THREADED[0]:
        return fn(*a, **k)
    steps, Steps.due = Steps.due, None
    LOCK.release()
    try:
        return steps.run(fn, a, k) if steps else fn(*a, **k)
    finally:
        LOCK.acquire()


SRC = os.path.dirname(os.path.abspath(sys.modules[RSAKey.__module__].__file__)) + os.sep


class Steps(object):
    """The next call of the library, step by step: where it has been (seen), and,
    at one of its steps, something else that another thread does meanwhile"""
    due = None

    def __init__(self, fine=False, at=0, other=None):
        self.fine, self.at, self.other, self.n, self.seen, self.thread = fine, at, other, 0, [], None

    def run(self, fn, a, k):
        def local(frame, event, arg):
            if event == ("opcode" if self.fine else "line"):
                self.n += 1
                if self.at == 0:
                    if self.n <= 200000:
                        self.seen.append((frame.f_code.co_filename, frame.f_lasti if self.fine else frame.f_lineno))
                elif self.n == self.at:
                    sys.settrace(None)
                    frame.f_trace = None
                    self.thread = threading.Thread(target=self.meanwhile, daemon=True)
                    self.thread.start()
                    self.thread.join(5)        # unless it has to wait for us
                    return None
            return local

        def enter(frame, event, arg):
            if not frame.f_code.co_filename.startswith(SRC) or self.at and self.n >= self.at:
                return None
            if self.fine:
                frame.f_trace_opcodes, frame.f_trace_lines = True, False
            return local
        sys.settrace(enter)
        try:
            return fn(*a, **k)
        finally:
            sys.settrace(None)

    def meanwhile(self):
        with LOCK:
            try:
                self.other()
            except Exception as e:
                self.error = e
    error = None


def preempt(rng, first, others):
    """first() makes one call of the library; then it is made again for each of
    the others, which gets its turn somewhere on the way"""
    fine = rng.random() < .3
    with LOCK:
        THREADED[0] = True
        try:
            st = Steps.due = Steps(fine)
            first()
            where = {}
            for i, x in enumerate(st.seen):
                where.setdefault(x, []).append(i + 1)
            places = sorted(where)
            for other in others if places else []:
                st = Steps.due = Steps(fine, rng.choice(where[rng.choice(places)]), other)
                first()
                Steps.due = None
                if st.thread:
                    LOCK.release()
                    try:
                        st.thread.join()
                    finally:
                        LOCK.acquire()
                if st.error:
                    raise st.error
        finally:
            Steps.due, THREADED[0] = None, False


def in_threads(fns):
    """Runs the functions side by side, with frequent switches"""
    errs, old = [], sys.getswitchinterval()

    def run(f):
        with LOCK:
            try:
                f()
            except Exception as e:
                errs.append(e)
    ts = [threading.Thread(target=run, args=(f,), daemon=True) for f in fns]
    THREADED[0] = True
    sys.setswitchinterval(5e-6)
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
        THREADED[0] = False
    if errs:
        raise errs[0]


class Recorder(object):
    """Writes events; remembers how to describe each of them"""

    def __init__(self, path):
        self.f = open(path, "w")
        self.info = open(path + ".info", "w")
        self.n = 0
        self.calls = 0
        self.kinds = {}
        self.sample = []
        self.lure = False       # is this about where keys come from (C20)?
        net.watch()

    def emit(self, ev, info=None):
        # did the code use the network since the last event?
        n = net.WATCH.n
        ev.setdefault("net", n != net.WATCH.told)
        ev.setdefault("lure", self.lure)
        net.WATCH.told = n
        self.n += 1
        self.f.write(json.dumps(ev) + "\n")
        self.info.write(json.dumps(info if info is not None else {}, default=repr) + "\n")
        if ev["op"] not in ("reset", "new", "put", "there"):
            self.calls += 1
            k = ev["op"] + ":" + str(ev.get("out", {}).get("kind", ""))
            self.kinds[k] = self.kinds.get(k, 0) + 1
            if len(self.sample) < 3 and self.calls % 7 == 1:
                self.sample.append({"event": ev, "info": info})

    def close(self):
        self.f.close()
        self.info.close()


def pick(rng, xs):
    return xs[rng.randrange(len(xs))]


def weighted(rng, pairs):
    t = sum(w for _, w in pairs)
    x = rng.random() * t
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]
