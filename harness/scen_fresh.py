"""Drives everything that draws random values, and takes the results apart
(events for spec/FreshTrace.tla)."""
import base64
import hashlib
import json
import os
import random
import runpy
import struct
import subprocess
import sys
import threading
import time

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import entropy
import progs
from common import K, POOL, kty_of, name, pick, weighted
from drv_jws import EC, OCT

CEKLEN = dict(zip(("A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512", "A128GCM", "A192GCM", "A256GCM"), (32, 48, 64, 16, 24, 32)))
CURVES = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
HBITS = {"256": 256, "384": 384, "512": 512}


# ---------------------------------------------------------------------------
# what is done; everything goes in and comes out as JSON, so that other
# processes can do it too

def perform(op, objs):
    from jwkest.jwe import JWE
    from jwkest.jws import JWS
    t = op["t"]
    if t == "enc":
        key = ("enc", op["obj"], op["alg"], op["enc"])
        o = objs.get(key)
        if o is None:
            o = JWE(op["msg"], alg=op["alg"], enc=op["enc"])
            if op["obj"]:
                objs[key] = o
        o.msg = op["msg"]
        a = {k: bytes.fromhex(op[k]) for k in ("cek", "iv") if op.get(k)}
        if op.get("decrypt"):       # a message received in between, with the same object
            try:
                o.decrypt(op["decrypt"], [K(op["mat"]).key])
            except Exception:
                pass
            o.msg = op["msg"]
        return o.encrypt([K(op["mat"], False).key], **a)
    if t == "sign":
        key = ("sign", op["obj"], op["alg"])
        o = objs.get(key)
        if o is None:
            o = JWS(op["msg"], alg=op["alg"])
            if op["obj"]:
                objs[key] = o
        if op.get("json"):
            return json.loads(o.sign_json([K(op["mat"]).key], [({"alg": op["alg"]}, {})]))
        return o.sign_compact([K(op["mat"]).key])
    if t == "rawsign":
        from jwkest.jws import SIGNER_ALGS
        m = POOL[op["mat"]]
        return SIGNER_ALGS[op["alg"]].sign(op["msg"].encode(), m.d).hex()
    if t == "ecdsa":
        from jwkest.ecc import NISTEllipticCurve
        m = POOL[op["mat"]]
        return NISTEllipticCurve.by_name(m.crv).sign(op["h"], m.d).hex()
    if t == "pair":
        from jwkest.ecc import NISTEllipticCurve
        priv, pub = NISTEllipticCurve.by_name(op["crv"]).key_pair()
        return [str(priv), str(pub[0]), str(pub[1])]
    if t == "eckey":
        from jwkest.ecc import NISTEllipticCurve
        from jwkest.jwk import ECKey
        k = ECKey().load_key(NISTEllipticCurve.by_name(op["crv"]))
        return [str(k.d), str(k.x), str(k.y)]
    if t == "eph":
        from jwkest.jwe import JWE_EC
        r = JWE_EC(alg=op["alg"], enc=op["enc"]).enc_setup("msg", b"", key=K(op["mat"], False).key)
        return [r[0].hex(), r[2].hex(), str(r[4].d), str(r[4].x), str(r[4].y)]
    if t == "symkey":
        repo = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(sys.modules["jwkest"].__file__))))
        m = runpy.run_path(os.path.join(repo, "script", "gen_symkey.py"), run_name="gen")
        return m["rndstr"](48)


def i(n, w):
    return progs.i2b(n, w)


class Take(object):
    """Takes results apart"""

    def __init__(self, prog):
        import absjwe
        self.a = absjwe
        absjwe.PROG = prog

    def draws(self, op, out):
        return getattr(self, op["t"])(op, out)

    def enc(self, op, tok):
        a, alg, enc = self.a, op["alg"], op["enc"]
        parts = tok.encode().split(b".")
        h = a.header_of(parts[0])
        m = POOL[op["mat"]]
        _, crv, pt, _ = a.epk_of(h)
        r = a.open_with(alg, enc, False, parts, m, pt, a.party(h, "apu")[0], a.party(h, "apv")[0])
        iv = progs.b64d(parts[2])
        out = []
        if r:
            out.append(("cek", "cek %d %s" % (len(r[1]), alg[:4]), r[1], len(r[1]) == CEKLEN[enc], True, bool(op.get("cek")) and alg != "ECDH-ES"))
        out.append(("iv", "iv %d" % len(iv), iv, len(iv) == (16 if "CBC" in enc else 12), True, bool(op.get("iv"))))
        if pt:
            w = progs.WIDTH[crv]
            out.append(("epk", "epk " + crv, i(pt[1], w), True, progs.on_curve(crv, pt[1], pt[2]), False))
        if r and alg == "RSA1_5":
            em = i(pow(int.from_bytes(progs.b64d(parts[1]), "big"), m.d, m.n), m.size)
            out.append(("pad", "pad", em[2:em.find(b"\0", 2)], True, True, False))
        if r and alg.startswith("RSA-OAEP"):
            hh = hashlib.sha256 if alg.endswith("256") else hashlib.sha1
            n = hh().digest_size
            em = i(pow(int.from_bytes(progs.b64d(parts[1]), "big"), m.d, m.n), m.size)
            out.append(("seed", "seed %d" % n, progs.xor(em[1:1 + n], progs.mgf1(em[1 + n:], n, hh)), True, True, False))
        return out

    def sign(self, op, tok):
        alg, m = op["alg"], POOL[op["mat"]]
        if isinstance(tok, dict):
            e = tok["signatures"][0] if "signatures" in tok else tok
            h, p, s = e["protected"].encode(), tok["payload"].encode(), e["signature"].encode()
        else:
            h, p, s = tok.encode().split(b".")
        return self.signature(alg, m, h + b"." + p, progs.b64d(s))

    def rawsign(self, op, out):
        return self.signature(op["alg"], POOL[op["mat"]], op["msg"].encode(), bytes.fromhex(out))

    def signature(self, alg, m, data, sig):
        bits = int(alg[2:])
        if alg[:2] == "ES":
            n = progs.ORDER[m.crv]
            return self.nonce(m, progs.bits2int(progs.HASH[bits](data).digest(), n), sig)
        hl, embits = bits // 8, m.n.bit_length() - 1
        emlen = (embits + 7) // 8
        em = i(pow(int.from_bytes(sig, "big"), m.e, m.n), emlen)
        hh = em[emlen - hl - 1:-1]
        db = progs.xor(em[:emlen - hl - 1], progs.mgf1(hh, emlen - hl - 1, progs.HASH[bits]))
        salt = db[-hl:]
        return [("salt", "salt %d" % hl, salt, True, True, False)]

    def ecdsa(self, op, out):
        m = POOL[op["mat"]]
        n = progs.ORDER[m.crv]
        h = op["h"]
        while h.bit_length() > n.bit_length():
            h >>= 1
        return self.nonce(m, h, bytes.fromhex(out))

    def nonce(self, m, h, sig):
        n, w = progs.ORDER[m.crv], progs.WIDTH[m.crv]
        r, s = int.from_bytes(sig[:w], "big"), int.from_bytes(sig[w:], "big")
        if len(sig) != 2 * w or not (0 < r < n and 0 < s < n):
            return [("nonce", "nonce " + m.crv, sig, False, False, False)]
        k = pow(s, -1, n) * (h + r * m.d) % n
        # a small nonce or a small negative one
        return [("nonce", "nonce " + m.crv, i(k, w), True, 0 < k < n, False), ("nonce", "nonce- " + m.crv, i(n - k, w), True, True, False),
                ("r", "r " + m.crv, i(r, w), True, True, False)]

    def pair(self, op, out):
        return self.key(op["crv"], *[int(x) for x in out])

    eckey = pair

    def key(self, crv, d, x, y):
        n, w = progs.ORDER[crv], progs.WIDTH[crv]
        right = 0 < d < n
        if right:
            p = progs.ec_point(crv, *progs.GEN[crv]) * d
            right = (int(p.x), int(p.y)) == (x, y)
        return [("ecpriv", "ecpriv " + crv, i(d % n, w), True, right, False), ("epk", "epk " + crv, i(x, w), True, True, False)]

    def eph(self, op, out):
        crv = POOL[op["mat"]].crv
        cek, iv = bytes.fromhex(out[0]), bytes.fromhex(out[1])
        return self.key(crv, *[int(x) for x in out[2:]]) + [
            ("cek", "cek %d" % len(cek), cek, len(cek) == CEKLEN[op["enc"]], True, False),
            ("iv", "iv %d" % len(iv), iv, len(iv) == (16 if "CBC" in op["enc"] else 12), True, False)]

    def symkey(self, op, out):
        return [("symkey", "", out.encode(), len(out) == 48, True, False)]


class Frozen(object):
    """The clocks stand still and the process has always the same number"""
    NAMES = [(time, "time"), (time, "time_ns"), (time, "monotonic"), (time, "monotonic_ns"), (time, "perf_counter"), (time, "perf_counter_ns"),
             (os, "getpid"), (os, "getppid")]

    def __enter__(self):
        self.old = [getattr(m, n) for m, n in self.NAMES]
        for m, n in self.NAMES:
            setattr(m, n, (lambda v: lambda: v)(1234567890 if not n.endswith("_ns") else 1234567890 * 10**9))

    def __exit__(self, *_):
        for (m, n), f in zip(self.NAMES, self.old):
            setattr(m, n, f)


class Scen(object):
    MIX = [("plain", 8), ("seeded", 8), ("restored", 5), ("frozen", 4), ("same", 8), ("threads", 3), ("forked", 2), ("spawned", .35), ("bulk", 3)]

    def __init__(self, rec, rng, prog):
        self.rec, self.rng, self.take = rec, rng, Take(prog)
        self.last = None

    def steps(self, prop, behaviours, lists):
        for m, w in self.MIX:
            yield getattr(self, m)
        while True:
            yield getattr(self, weighted(self.rng, self.MIX))

    def finish(self):
        self.rec.emit({"op": "end", "out": {"kind": ""}}, {"what": "spread of all values"})

    # -- operations -------------------------------------------------------------
    def an_op(self, kinds=None):
        rng = self.rng
        t = weighted(rng, kinds or [("enc", 8), ("sign", 4), ("rawsign", 1), ("ecdsa", 2), ("pair", 2), ("eckey", 1), ("eph", 1), ("symkey", .2)])
        msg = pick(rng, ["m", "message", "x" * 40])
        if t == "enc":
            alg = pick(rng, ["A128KW", "A192KW", "A256KW", "RSA1_5", "RSA-OAEP", "RSA-OAEP-256", "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW",
                             "ECDH-ES+A256KW"])
            enc = pick(rng, list(CEKLEN)[:3] * 6 + list(CEKLEN)[3:])
            mat = (pick(rng, OCT) if alg[0] == "A" else pick(rng, ["r1040", "r2048a"]) if alg[0] == "R" else pick(rng, EC[pick(rng, ["P-256"] * 4 + ["P-384", "P-521"])]))
            op = {"t": t, "alg": alg, "enc": enc, "mat": mat, "msg": msg, "obj": pick(rng, [0, 1, 2])}
            if rng.random() < .08:
                op["iv"] = os.urandom(16 if "CBC" in enc else 12).hex()
            if rng.random() < .08 and alg[0] != "R":
                op["cek"] = os.urandom(CEKLEN[enc]).hex()
            if rng.random() < .1 and self.last:
                op["decrypt"] = self.last
            return op
        if t in ("sign", "rawsign", "ecdsa"):
            alg = pick(rng, ["ES256", "ES256", "ES384", "ES512"] + (["PS256", "PS384", "PS512"] if t == "sign" else []))
            mat = pick(rng, EC[CURVES[alg]]) if alg[0] == "E" else pick(rng, ["r1040", "r2048a"])
            op = {"t": t, "alg": alg, "mat": mat, "msg": msg, "obj": pick(rng, [0, 1])}
            if t == "sign" and rng.random() < .2:
                op["json"] = 1
            if t == "ecdsa":
                op["h"] = int.from_bytes(hashlib.sha256(b"h%d" % rng.randrange(3)).digest(), "big")
            return op
        if t == "eph":
            return {"t": t, "alg": pick(rng, ["ECDH-ES", "ECDH-ES+A128KW"]), "enc": pick(rng, list(CEKLEN)[:3]), "mat": pick(rng, EC["P-256"] + EC["P-384"])}
        return {"t": t, "crv": pick(rng, ["P-256", "P-256", "P-384", "P-521"])}

    def measured(self, op, objs, ctx):
        """Done, recorded, and what it took from the system's source counted"""
        start = entropy.taken
        out = perform(op, objs)
        got = entropy.taken - start
        need = 0
        for kind, group, val, _, _, given in self.record(op, out, ctx):
            # in octets; a padding or a number below the order is worth a little less
            if kind in ("seed", "salt", "iv") or kind == "cek" and op["alg"] != "ECDH-ES":
                need += 0 if given else len(val)
            elif group.startswith(("nonce P", "ecpriv")) or kind == "epk" and op["t"] == "enc":
                need += progs.ORDER[group.split()[1]].bit_length() // 8
            elif kind == "pad":
                need += len(val) * 99 // 100
        self.rec.emit({"op": "source", "need": need, "got": got, "out": {"kind": "source"}}, {"what": ctx, "op": op})

    def record(self, op, out, ctx):
        if op["t"] == "enc":
            self.last = out
        draws = self.take.draws(op, out)
        for kind, group, val, size, rang, given in draws:
            oc = [] if given or kind in ("pad", "r", "epk", "symkey") else list(val[1:] if group.endswith("P-521") else val)
            self.rec.emit({"op": "draw", "kind": kind, "group": group, "val": name(val), "octets": oc, "size": bool(size), "range": bool(rang), "given": bool(given),
                           "out": {"kind": kind}}, {"what": ctx, "op": op, "out": out})
        return draws

    # -- circumstances ----------------------------------------------------------
    def plain(self):
        objs = {}
        for _ in range(6):
            self.measured(self.an_op(), objs, "plain")

    def seeded(self):
        objs, s = {}, pick(self.rng, [0, 1, 7, "x"])
        ops = [self.an_op() for _ in range(2)]
        for k in range(3):
            for op in ops:
                random.seed(s)
                if self.rng.random() < .3:
                    objs = {}
                self.measured(op, objs, "random seeded with %r" % s)

    def restored(self):
        objs, st = {}, random.getstate()
        op = self.an_op()
        for k in range(4):
            random.setstate(st)
            self.record(op, perform(op, objs), "state of random restored")

    def frozen(self):
        objs = {}
        op = self.an_op()
        for k in range(3):
            random.seed(3)
            with Frozen():
                out = perform(op, objs)
            self.record(op, out, "clocks stopped, random seeded")

    def same(self):
        """The same thing again and again"""
        objs = {}
        op = dict(self.an_op())
        op.pop("iv", 0)
        op.pop("cek", 0)
        if op["t"] == "enc" and self.rng.random() < .4:
            g = dict(op, **pick(self.rng, [{"iv": os.urandom(16 if "CBC" in op["enc"] else 12).hex()},
                                          {"cek": os.urandom(CEKLEN[op["enc"]]).hex()}] if op["alg"][0] != "R" else [{}]))
            self.record(g, perform(g, objs), "given")
        for k in range(5):
            self.measured(op, objs, "the same again")

    def bulk(self):
        """Enough of one kind for the spread to be judged"""
        ops = [[("pair", 1)], [("ecdsa", 1)], [("rawsign", 1)], [("eph", 1)]]
        kinds = pick(self.rng, ops)
        for k in range(25):
            op = self.an_op(kinds)
            if "crv" in op:
                op["crv"] = "P-256"
            if "alg" in op and op["alg"][0] == "E" and op["t"] in ("ecdsa", "rawsign"):
                op.update(alg="ES256", mat=pick(self.rng, EC["P-256"]))
            if op["t"] == "eph":
                op["mat"] = pick(self.rng, EC["P-256"])
            self.measured(op, {}, "bulk")

    def threads(self):
        n = 6
        ops = [self.an_op() for _ in range(3)]
        outs, errs = [[] for _ in range(n)], []
        bar = threading.Barrier(n)
        old = sys.getswitchinterval()

        def work(k):
            try:
                objs = {}
                bar.wait()
                for op in ops:
                    outs[k].append((op, perform(op, objs)))
            except Exception as e:
                errs.append(e)
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=work, args=(k,)) for k in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        finally:
            sys.setswitchinterval(old)
        if errs:
            raise errs[0]
        for o in outs:
            for op, out in o:
                self.record(op, out, "threads")

    def forked(self):
        ops = [self.an_op() for _ in range(3)]
        objs = {}
        if self.rng.random() < .7:
            for op in ops:
                self.record(op, perform(op, objs), "before the fork")
        kids = []
        for k in range(3):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    data = json.dumps([perform(op, objs) for op in ops]).encode()
                    while data:
                        data = data[os.write(w, data):]
                    os._exit(0)
                except BaseException:
                    os._exit(1)
            os.close(w)
            kids.append((pid, r))
        outs = []
        for pid, r in kids:
            d = b""
            while True:
                b = os.read(r, 65536)
                if not b:
                    break
                d += b
            os.close(r)
            _, st = os.waitpid(pid, 0)
            if st == 0:
                outs.append(json.loads(d))
        for o in outs + [[perform(op, objs) for op in ops]]:
            for op, out in zip(ops, o):
                self.record(op, out, "forked processes")

    def spawned(self):
        ops = [self.an_op() for _ in range(4)] + [self.an_op([("pair", 1)]), self.an_op([("sign", 1)])]
        env = dict(os.environ, PYTHONHASHSEED="0")
        ps = [subprocess.Popen([sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env) for _ in range(2)]
        outs = []
        for p in ps:
            o, _ = p.communicate(json.dumps(ops).encode())
            if p.returncode == 0:
                outs.append(json.loads(o))
        for o in outs:
            for op, out in zip(ops, o):
                self.record(op, out, "separate processes, same seed")


if __name__ == "__main__":
    import logging
    logging.disable(logging.CRITICAL)
    random.seed(1)
    objs = {}
    out = []
    for op in json.load(sys.stdin):
        random.seed(5)
        out.append(perform(op, objs))
    print(json.dumps(out))
