"""Scenarios for the JWS driver: what is signed, altered and verified, with
which keys, on which objects.  All choices come from one random generator."""
import json

import absjws
import progs
from lures import lures, publish
from common import K, POOL, foreign_key, in_threads, jwk_of, kty_of, matname, pick, preempt, weighted
from drv_jws import (ALGS, EC, ESC, HOWS, KIDS, OCT, RSA_BIG, RSA_S, RSA_TINY, Adopted, Driver, Obj, b64u, header_json,
                     make, mats_for, payload, raw_sign, tamper)

from replay_jws import Replay


def TWINS(alg):
    """Materials of the same type, size and curve"""
    if alg[0] == "H":
        return ["o32", "o32b", "o32e", "o32z"]
    if alg[0] == "E":
        return EC[ESC[alg]][:2]
    return ["r2048a", "r2048b"] if alg == "PS512" else ["r1024a", "r1024b", "r1024c"]


class Scen(object):
    def __init__(self, rec, rng, prog):
        self.d = Driver(rec, rng, prog)
        self.rng, self.rec = rng, rec

    # -- keys -----------------------------------------------------------------
    def key(self, mat, private=True, kid="", use="", alg=""):
        how = pick(self.rng, HOWS[kty_of(POOL[mat])])
        return K(mat, private, how, kid, use, alg)

    def decoys(self, alg, mat, n, private=True, kid=""):
        """Keys that are not the one: unrelated, of the same type with other
        attributes, of the other curve, too small, of unknown type"""
        rng, out = self.rng, []
        for _ in range(n):
            r = rng.randrange(12)
            if r < 3:
                m = mats_for(rng, alg)
            elif r == 3:
                m = mats_for(rng, pick(rng, ALGS))
            elif r == 4:
                m = pick(rng, OCT)
            elif r == 5:
                m = pick(rng, EC[pick(rng, list(EC))])
            elif r == 6 and alg[0] in "RP":
                m = pick(rng, RSA_TINY)
            elif r == 7:
                out.append(foreign_key(pick(rng, ["foo", "RSB", "EC2", ""]), pick(rng, KIDS)))
                continue
            else:
                m = mats_for(rng, pick(rng, ALGS))
            k = pick(rng, KIDS + [kid, kid])
            out.append(self.key(m, private and rng.random() < .8 or kty_of(POOL[m]) == "oct", k,
                                pick(rng, ["", "", "", "sig", "enc"]),
                                pick(rng, ["", "", "", alg, pick(rng, ALGS)])))
        return out

    def place(self, key, decoys):
        ks = list(decoys)
        ks.insert(self.rng.randrange(len(ks) + 1), key)
        return ks

    # -- scenarios ------------------------------------------------------------
    def roundtrip(self):
        """Sign here, verify here and by the specification; sign by the
        specification, verify here."""
        d, rng = self.d, self.rng
        d.reset()
        alg = pick(rng, ALGS)
        mat = mats_for(rng, alg)
        msg, raw = payload(rng)
        kid = pick(rng, KIDS)
        key = self.key(mat, True, kid, pick(rng, ["", "sig"]), pick(rng, ["", alg]))
        kw = {"alg": alg}
        if rng.random() < .2:
            kw["typ"] = pick(rng, ["JWT", "JWS"])
        if rng.random() < .25:
            kw["kid"] = kid if rng.random() < .8 else pick(rng, KIDS)
        for n, v in (("cty", "JWT"), ("x5t", "abc"), ("cty", "text/plain")):
            if rng.random() < .05:
                kw[n] = v
        ks = [key] if rng.random() < .5 else self.place(key, self.decoys(alg, mat, rng.randrange(1, 4), True, kid))
        prot = None
        if rng.random() < .35:
            prot = {"alg": pick(rng, [alg, "none", "HS256"]), "kid": "prot"} if rng.random() < .3 else {}
            for n, v in (("typ", "X"), ("cty", "JWT"), ("cty", "text/plain"), ("x", [1, {"y": "\u00e9"}]), ("n", 5), ("f", 0.5), ("jku", "http://a/b"),
                         ("e", "")):
                if rng.random() < .3:
                    prot[n] = v
        if rng.random() < .1 and key.rec["alg"]:
            ob = Obj(d, msg)           # the algorithm comes from the only key
            ks = [key]
        elif rng.random() < .1:
            ob, ks = Obj(d, msg, jwkkey=key, **kw), []
        else:
            ob = Obj(d, msg, **kw)
        tok = d.sign(ob, msg, raw, ks, prot, "roundtrip")
        if tok is None:
            return
        vk = self.key(mat, False, kid if rng.random() < .8 else "", pick(rng, ["", "sig", "enc"]), pick(rng, ["", alg]))
        vks = self.place(vk, self.decoys(alg, mat, rng.randrange(4), False, kid))
        vo = Obj(d) if rng.random() < .7 else ob
        d.verify(vo, tok if rng.random() < .7 else tok.encode(), vks, what="roundtrip")

    def interop(self):
        """An independent signer's token"""
        d, rng = self.d, self.rng
        d.reset()
        alg = pick(rng, ALGS)
        mat = mats_for(rng, alg)
        _, raw = payload(rng)
        h = {"alg": alg}
        kid = pick(rng, KIDS)
        for n, v in (("kid", kid), ("typ", "JWT"), ("cty", pick(rng, ["JWT", "jwt", "text/plain", "json"])), ("x", [1, None]),
                     ("\u00e9", "\u4e2d"), ("jku", "https://x.example/k"), ("x5t", "abc"), ("iat", 5)):
            if rng.random() < .25 and v:
                h[n] = v
        tok = make(alg, POOL[mat], header_json(rng, h), raw)
        vk = self.key(mat, rng.random() < .3, h.get("kid", pick(rng, KIDS)), "", pick(rng, ["", alg]))
        vks = self.place(vk, self.decoys(alg, mat, rng.randrange(5), False, kid))
        d.verify(self.verifier(alg), tok if rng.random() < .5 else tok.decode(), vks,
                 sigalg=pick(rng, [None, None, alg]), none=rng.random() < .3, what="interop")

    def verifier(self, alg):
        """A new object to verify with"""
        r = self.rng.random()
        if r < .6:
            return Obj(self.d)
        if r < .8:
            return Obj(self.d, alg=alg)
        if r < .85:
            return Obj(self.d, alg=pick(self.rng, ALGS + ["none", None, "None"]))
        if r < .9:
            return Obj(self.d, kid=pick(self.rng, KIDS), alg=alg)
        if r < .95:
            return Obj(self.d, typ="JWT", alg=alg)
        return Obj(self.d, cty="JWT")

    def forged(self, names=None, count=12):
        """Alterations of a valid token, with the signer's key at hand"""
        d, rng = self.d, self.rng
        d.reset()
        alg = pick(rng, ALGS)
        mat = mats_for(rng, alg)
        if alg.startswith("RS") and rng.random() < .3:
            mat = "r1024e3"
        _, raw = payload(rng)
        if len(raw) > 1000:
            raw = raw[:50]
        h = {"alg": alg}
        kid = pick(rng, KIDS)
        if kid and rng.random() < .5:
            h["kid"] = kid
        tok = make(alg, POOL[mat], json.dumps(h, separators=(",", ":")).encode(), raw)
        opts = tamper(rng, tok, POOL[mat], [mats_for(rng, pick(rng, ALGS)) for _ in range(2)])
        if names:
            opts = [x for x in opts if any(n in x[0] for n in names)]
        rng.shuffle(opts)
        ob = None
        for what, t in opts[:count]:
            try:
                t = t() if callable(t) else t
            except (progs.Fail, KeyError):
                continue
            vk = self.key(mat, rng.random() < .3 or kty_of(POOL[mat]) == "oct", pick(rng, [kid, kid, ""]), "", pick(rng, ["", "", alg]))
            vks = self.place(vk, self.decoys(alg, mat, rng.choice([0, 0, 1, 3]), False, kid))
            if ob is None or rng.random() < .6:
                ob = self.verifier(alg)
            d.verify(ob, t if rng.random() < .6 else t.decode("latin1"), vks, none=rng.random() < .25,
                     sigalg=pick(rng, [None, None, None, alg, "none", pick(rng, ALGS)]), what=what)
            if rng.random() < .1:
                d.verify(ob, tok, vks, what="the untouched token again")

    def ones(self):
        """Unsecured tokens in all spellings against all pins"""
        d, rng = self.d, self.rng
        d.reset()
        _, raw = payload(rng)
        raw = raw[:200]
        alg = pick(rng, ALGS)
        for a in ("none", "None", "NONE", "nOne", None, "absent", "", " none", "none "):
            h = {"alg": a} if a != "absent" else {"typ": "JWT"}
            if rng.random() < .1:
                h["crit"] = ["x"]
            tok = b64u(json.dumps(h).encode()) + b"." + b64u(raw) + b"." + pick(rng, [b"", b"", b"", b"YWJj"])
            key = self.key(mats_for(rng, alg), True)
            ob = self.verifier(alg)
            d.verify(ob, tok.decode(), [key] if rng.random() < .7 else [], none=rng.random() < .6,
                     sigalg=pick(rng, [None, None, "none", "None", alg]), what="unsecured %r" % (a,))

    def pins(self):
        """Valid tokens against the algorithms demanded"""
        d, rng = self.d, self.rng
        d.reset()
        for _ in range(6):
            alg = pick(rng, ALGS)
            mat = mats_for(rng, alg)
            # an RSA or HMAC key signs under several algorithms
            tok = make(alg, POOL[mat], json.dumps({"alg": alg}).encode(), b"pinned")
            near = [a for a in ALGS if a[0] == alg[0] or a[2:] == alg[2:]]
            pin, sa = pick(rng, [None, alg, pick(rng, near)]), pick(rng, [None, alg, pick(rng, near), "none"])
            if rng.random() < .35:       # nothing but the very name will do
                odd = pick(rng, [alg + " ", " " + alg, alg.lower(), alg[:2], alg[:4], alg[1:], alg + "x", alg + "," + pick(rng, ALGS),
                                 pick(rng, ALGS) + " " + alg, "%s %s" % (alg, alg), alg[:2] + "0" + alg[2:], "none " + alg, alg + "none", "*", "."])
                if rng.random() < .6:
                    pin, sa = odd, pick(rng, [None, alg])
                else:
                    pin, sa = pick(rng, [None, alg]), odd
            ob = Obj(d, alg=pin) if pin else Obj(d)
            d.verify(ob, tok, [self.key(mat, False, "", "", pick(rng, ["", alg, pick(rng, near)]))], sigalg=sa,
                     none=rng.random() < .3, what="pin %s sigalg %s" % (pin, sa))

    def selection(self):
        """Which of several keys is used"""
        d, rng = self.d, self.rng
        d.reset()
        alg = pick(rng, ALGS)
        mat = mats_for(rng, alg)
        n = rng.randrange(1, 6)
        ks = self.decoys(alg, mat, n, True, pick(rng, KIDS))
        if rng.random() < .8:
            ks = self.place(self.key(mat, True, pick(rng, KIDS), pick(rng, ["", "sig", "enc"]), pick(rng, ["", alg])), ks)
        # the same material again under another kid
        if rng.random() < .4:
            k = pick(rng, ks)
            if k.rec["mat"] in POOL and k.rec["mat"] != "foreign":
                ks = self.place(self.key(k.rec["mat"], True, pick(rng, KIDS), pick(rng, ["", "sig", "enc"])), ks)
        kw = {"alg": alg}
        if rng.random() < .4:
            kw["kid"] = pick(rng, KIDS)
        ob = Obj(d, "m", **kw)
        msg = "selected %d" % rng.randrange(1000)
        tok = d.sign(ob, msg, msg.encode(), ks, what="selection")
        pub = [K(k.m, rng.random() < .2, None, k.rec["kid"], k.rec["use"], k.rec["alg"]) if k.rec["mat"] != "foreign" else k for k in ks]
        rng.shuffle(pub)
        if tok:
            d.verify(Obj(d) if rng.random() < .7 else Obj(d, **kw), tok, pub, what="selection")
        # tokens naming some kid, signed by some of the keys
        for _ in range(3):
            fit = [k for k in ks if k.rec["mat"] != "foreign" and k.rec["kty"] == {"H": "oct", "R": "RSA", "P": "RSA", "E": "EC"}[alg[0]]
                   and (alg[0] != "E" or k.rec["crv"] == ESC[alg])]
            if not fit:
                break
            k = pick(rng, fit)
            h = {"alg": alg}
            kd = pick(rng, KIDS + [k.rec["kid"]] * 4)
            if kd:
                h["kid"] = kd
            try:
                t = make(alg, k.m, json.dumps(h).encode(), b"by one of them")
            except progs.Fail:
                continue
            some = [x for x in pub if rng.random() < .8]
            d.verify(Obj(d) if rng.random() < .7 else Obj(d, alg=alg, kid=pick(rng, KIDS + [k.rec["kid"]])), t, some, what="kid selection")

    def recall(self):
        """A call that succeeds, then calls that differ from it in one thing"""
        d, rng = self.d, self.rng
        d.reset()
        alg = pick(rng, ALGS)
        twins = TWINS(alg)
        mat, twin = rng.sample(twins, 2)
        kid = pick(rng, ["", "k1"])
        h = {"alg": alg}
        if kid and rng.random() < .5:
            h["kid"] = kid
        hj = json.dumps(h).encode()
        raw = b"remembered %d" % rng.randrange(9)
        h64, p64, s64 = make(alg, POOL[mat], hj, raw).split(b".")
        _, p2, s2 = make(alg, POOL[mat], hj, raw + b"!").split(b".")
        s3 = make(alg, POOL[twin], hj, raw).split(b".")[2]
        base = b".".join([h64, p64, s64])
        right, wrong = self.key(mat, True, kid), self.key(twin, True, kid)
        near = pick(rng, [a for a in ALGS if a[0] == alg[0] and a != alg])
        variants = [(base, [wrong])] * 5 + [(base, []), (base, [wrong, right]), (b".".join([h64, p2, s64]), [right]), (b".".join([h64, p64, s2]), [right]),
                    (b".".join([h64, p64, s3]), [right]), (b".".join([h64, p64, s3]), [wrong]), (b".".join([h64, p64, b""]), [right]),
                    (b".".join([h64, p2, s2]), [right]), (b".".join([h64, p2, s2]), [wrong]),
                    (base, [self.key(mat, True, "other")]), (base, [self.key(mat, True, kid, "", near)]),
                    (b".".join([b64u(json.dumps(dict(h, alg=near)).encode()), p64, s64]), [right]),
                    (b".".join([b64u(json.dumps(dict(h, crit=["x"])).encode()), p64, s64]), [right]),
                    (b".".join([b64u(json.dumps(dict(h, alg="none")).encode()), p64, s64]), [right]),
                    (b".".join([b64u(b'{"alg":"none"}'), p64, b""]), [right])]
        ob = self.verifier(alg)
        docs = rng.random() < .3
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < .3:
                ob = self.verifier(alg)
            seq = [(base, [right])] + [pick(rng, variants) for _ in range(rng.choice([1, 1, 2, 3]))]
            for n, (t, ks) in enumerate(seq):
                if n and rng.random() < .3:
                    ob = self.verifier(alg)
                t = t.decode()
                if docs:
                    a, b, c = t.split(".")
                    t = json.dumps({"payload": b, "protected": a, "signature": c})
                d.verify(ob, t, ks, none=bool(n) and rng.random() < .1, sigalg=pick(rng, [None, None, None, alg, near]) if n else None,
                         what="recall %d" % n, docform=docs)
        so = Obj(d, "m", alg=alg)
        for k in ([right], [wrong], [right, wrong], [wrong, right])[:rng.randrange(4)]:
            d.sign(so, "m", b"m", k, what="recall")

    def threads(self):
        """Objects in several threads, sharing nothing but keys"""
        d, rng = self.d, self.rng
        d.reset()
        algs = [pick(rng, ALGS) for _ in range(rng.choice([1, 1, 2]))]
        algs = [pick(rng, ["HS256", "RS256", "PS256", "ES256"]) if rng.random() < .3 else a for a in algs]
        keys, toks = [], []
        for a in algs:
            for m in TWINS(a)[:2]:
                k = self.key(m, True, pick(rng, ["", "k" + m]))
                keys.append((a, k))
                for j in range(2):
                    h = {"alg": a}
                    if k.rec["kid"] and rng.random() < .5:
                        h["kid"] = k.rec["kid"]
                    toks.append((k, make(a, POOL[m], json.dumps(h).encode(), b"thread payload %d" % j).split(b".")))

        def work(me):
            ob = Obj(d)
            for _ in range(6):
                r = rng.random()
                if r < .35:
                    a, k = pick(rng, keys)
                    msg = "thread %d message %d" % (me, rng.randrange(9))
                    t = d.sign(Obj(d, msg, alg=a), msg, msg.encode(), [k], what="threads")
                    if t:
                        d.verify(ob, t, [k], what="threads own")
                    continue
                k, t = pick(rng, toks)
                t = list(t)
                if rng.random() < .4:
                    i = rng.randrange(3)
                    t[i] = pick(rng, toks)[1][i]
                ks = [k] if rng.random() < .5 else [x[1] for x in rng.sample(keys, rng.randrange(1, len(keys) + 1))]
                if rng.random() < .2:
                    h, p, s = [x.decode() for x in t]
                    d.verify(ob, json.dumps({"payload": p, "protected": h, "signature": s}), ks, what="threads", docform=True)
                else:
                    d.verify(ob, b".".join(t), ks, what="threads")
                if rng.random() < .3:
                    ob = Obj(d)
        in_threads([lambda me=me: work(me) for me in range(rng.choice([2, 3, 4]))])

    def preempted(self):
        """A call that another one gets in the way of, at every place there is"""
        d, rng = self.d, self.rng
        d.reset()
        alg = pick(rng, ALGS)
        keys, toks = [], []
        for m in TWINS(alg)[:2]:
            k = self.key(m, True, pick(rng, ["", "k" + m]))
            keys.append(k)
            for j in range(2):
                h = {"alg": alg}
                if k.rec["kid"] and rng.random() < .5:
                    h["kid"] = k.rec["kid"]
                toks.append((k, make(alg, POOL[m], json.dumps(h).encode(), b"thread payload %d" % j).split(b".")))
        k, t = pick(rng, toks)

        def call(like=None):
            ob = Obj(d, alg=alg) if rng.random() < .3 else Obj(d)
            r = rng.random()
            if r < .2:
                so, sk, msg = Obj(d, "m", alg=alg), pick(rng, keys), "message %d" % rng.randrange(9)
                return lambda: d.sign(so, msg, msg.encode(), [sk], what="preempted")
            x = list(t)
            if r < .65:
                i = rng.randrange(3)
                x[i] = pick(rng, toks)[1][i]
            elif r < .75:
                x = pick(rng, toks)[1]
            elif r < .8:
                x = [b64u(json.dumps({"alg": "none"}).encode()), x[1], b""]
            ks = [k] if rng.random() < .7 else pick(rng, [[pick(rng, keys)], list(keys)])
            if rng.random() < .2:
                h, p, s = [y.decode() for y in x]
                doc = json.dumps({"payload": p, "protected": h, "signature": s})
                return lambda: d.verify(ob, doc, ks, what="preempted", docform=True)
            return lambda: d.verify(ob, b".".join(x), ks, what="preempted")
        preempt(rng, call(), [call() for _ in range(4 if alg[0] == "E" else 16)])

    def crowd(self):
        """One key among very many"""
        d, rng = self.d, self.rng
        d.reset()
        alg = pick(rng, ALGS)
        mat = mats_for(rng, alg)
        kid = pick(rng, KIDS)
        n = rng.choice([8, 12, 20, 35, 70])
        same = [m for m in (mats_for(rng, alg) for _ in range(6)) if m != mat]
        others = [self.key(pick(rng, same), kty_of(POOL[mat]) == "oct", pick(rng, KIDS)) if same and rng.random() < .8 else
                  self.decoys(alg, mat, 1, False, kid)[0] for _ in range(n)]
        others = [k for k in others if k.rec["mat"] != mat or rng.random() < .2]
        h = {"alg": alg}
        if kid and rng.random() < .3:
            h["kid"] = kid
        tok = make(alg, POOL[mat], json.dumps(h).encode(), b"one of many")
        ks = self.place(self.key(mat, rng.random() < .3, kid, "", pick(rng, ["", alg])), others)
        if rng.random() < .5:
            ks.sort(key=lambda k: k.rec["mat"] == mat)       # the right one last
        d.verify(self.verifier(alg) if rng.random() < .3 else Obj(d), tok, ks, what="crowd")
        if rng.random() < .3:
            ks = self.place(self.key(mat, True, kid), [self.key(k.rec["mat"], True, k.rec["kid"]) for k in others if k.rec["mat"] in POOL])
            ob = Obj(d, "m", alg=alg)
            d.sign(ob, "m", b"m", ks, what="crowd")

    def astray(self):
        """Tokens that say where to find the key they are signed with"""
        d, rng = self.d, self.rng
        d.reset()
        self.rec.lure = True
        alg = pick(rng, ALGS)
        mine, his = mats_for(rng, alg), mats_for(rng, alg)
        kid = pick(rng, KIDS)
        key = self.key(mine, False, kid if rng.random() < .5 else "")
        if rng.random() < .3:        # what the caller signs may point somewhere, too
            at = lures(rng, his, kid)
            at.pop("jwk", None)
            kw = {k: v for k, v in at.items() if rng.random() < .5}
            prot = {k: v for k, v in at.items() if rng.random() < .5} or None
            sk = self.key(mine, True, kid if rng.random() < .5 else "")
            ob = Obj(d, b"go", alg=alg, **kw)
            tok = d.sign(ob, "go", b"go", self.place(sk, self.decoys(alg, mine, rng.randrange(2))), prot, "with directions")
            if tok:
                d.verify(ob if rng.random() < .5 else Obj(d), tok, [key], what="with directions")
            return
        ob = self.verifier(alg)
        for _ in range(rng.randrange(1, 4)):
            signer, offered = weighted(rng, [((his, his), 4), ((mine, his), 2), ((mine, mine), 1), ((his, mine), 1)])
            at = lures(rng, offered, kid if rng.random() < .5 else "")
            h = {"alg": alg}
            if kid and rng.random() < .4:
                h["kid"] = kid
            form = rng.randrange(3)
            un = {}
            for k, v in at.items():
                (h if form == 0 or rng.random() < .5 else un)[k] = v
            tok = make(alg, POOL[signer], header_json(rng, h), b"come in")
            ks = weighted(rng, [([key], 4), (self.place(key, self.decoys(alg, mine, 2, False, kid)), 3), ([], 1)])
            if rng.random() < .3:
                ob = self.verifier(alg)
            if form == 0:
                d.verify(ob, tok, ks, what="a token that offers a key")
            else:
                a, b, c = tok.decode().split(".")
                e = {"protected": a, "signature": c}
                if un:
                    e["header"] = un
                doc = dict(e, payload=b) if form == 1 else {"payload": b, "signatures": [e]}
                d.verify(ob, json.dumps(doc), ks, what="a document that offers a key", docform=True)

    def pointed(self):
        """Objects whose maker said where the keys are to be found"""
        d, rng = self.d, self.rng
        d.reset()
        self.rec.lure = True
        alg = pick(rng, ALGS)
        mine, his = mats_for(rng, alg), mats_for(rng, alg)
        kid = pick(rng, KIDS)
        plain = alg[0] in "RP" and rng.random() < .5
        key = self.key(mine, kty_of(POOL[mine]) == "oct" or not plain and rng.random() < .6, "" if plain else kid)

        def some(key):
            return [key] if plain else [k for k in self.place(key, self.decoys(alg, mine, rng.randrange(3), True, kid)) if k.rec["mat"] != "foreign"]
        ks = some(key)
        kw = publish(rng, ks)
        if rng.random() < .5:
            kw["alg"] = alg
        if kid and rng.random() < .2:
            kw["kid"] = kid
        ob = Obj(d, url=ks, **kw)
        other = self.key(his, True, kid if rng.random() < .5 else "")
        for _ in range(rng.randrange(1, 5)):
            own = pick(rng, [[], [], [], [other], [other, key]])
            if rng.random() < .35:
                ob.there(pick(rng, [lambda: [], lambda: some(key), lambda: some(self.key(his, not plain and other.rec["priv"], "" if plain else kid))])())
            if rng.random() < .35 and "alg" in kw:
                d.sign(ob, "there", b"there", own, None, "pointed")
                continue
            h = {"alg": alg}
            if kid and rng.random() < .5:
                h["kid"] = kid
            tok = make(alg, POOL[pick(rng, [mine, mine, his])], header_json(rng, h), b"there")
            if rng.random() < .2:
                a, b, c = tok.decode().split(".")
                d.verify(ob, json.dumps({"payload": b, "protected": a, "signature": c}), own, what="pointed", docform=True)
            else:
                d.verify(ob, tok, own, what="pointed")

    def jsondoc(self):
        d, rng = self.d, self.rng
        d.reset()
        msg, raw = payload(rng)
        n = rng.choice([1, 1, 2, 3])
        algs = [pick(rng, ALGS) for _ in range(n)]
        ks, hs = [], []
        base = pick(rng, algs)
        for j, a in enumerate(algs):
            mat = mats_for(rng, a)
            kid = "s%d" % j if rng.random() < .8 else pick(rng, KIDS)
            ks.append(self.key(mat, True, kid, pick(rng, ["", "sig"]), pick(rng, ["", a])))
            p = {"alg": a} if rng.random() < .8 else {}
            if rng.random() < .7 and kid:
                p["kid"] = kid
            if rng.random() < .2:
                p["typ"] = "JOSE"
            if rng.random() < .2:
                p["y"] = {"z": [1, 2]}
            if rng.random() < .1:
                p["cty"] = "text/plain"
            un = pick(rng, [None, None, {}, {"x": 1}, {"kid2": "q", "n": [1]}])
            hs.append((p if p or rng.random() < .5 else None, un))
        if rng.random() < .4:
            ks += self.decoys(base, ks[0].rec["mat"], rng.randrange(3), True, "s0")
            rng.shuffle(ks)
        more = {}
        if rng.random() < .3:       # none of it belongs in the entries
            more = {m: v for m, v in (("typ", "JWT"), ("cty", "text/plain"), ("x5t", "YQ"), ("kid", pick(rng, ["s0", "zz"])),
                                      ("x5c", ["YQ"])) if rng.random() < .4}
        every = all(p and "alg" in p for p, _ in hs)
        if every and rng.random() < .4:     # every header names its algorithm: the object need not
            ob = Obj(d, msg, **more)
        else:
            ob = Obj(d, msg, alg=base, **more)
        doc = d.sign_json(ob, msg, raw, ks, hs if rng.random() < .85 else None, rng.random() < .5, "json")
        pub = [K(k.m, False, None, k.rec["kid"], k.rec["use"], k.rec["alg"]) if k.rec["mat"] != "foreign" else k for k in ks]
        if doc is not None:
            rng.shuffle(pub)
            d.verify(Obj(d), doc, pub, what="own document", docform=True)
            if rng.random() < .3:
                d.verify(ob, doc, pub, what="own document, same object", docform=True)

    def jsonforged(self):
        """Documents put together by the adversary"""
        d, rng = self.d, self.rng
        d.reset()
        raw = pick(rng, [b"shared payload", b'{"a":1}', b"", b"\xff\x00"])
        p64 = b64u(raw)
        n = rng.choice([1, 2, 2, 3])
        if rng.random() < .04:
            return self.jsonlong(raw, p64)
        keys, entries = [], []
        alg = pick(rng, ALGS)
        only = rng.randrange(n) if rng.random() < .4 else None     # everything else is in order
        for j in range(n):
            a = alg if rng.random() < .6 else pick(rng, ALGS)
            mat = mats_for(rng, a)
            kid = pick(rng, ["", "s%d" % j, "k1"])
            h = {"alg": a}
            un = {}
            if kid and rng.random() < .6:
                (h if rng.random() < .7 else un)["kid"] = kid
            keys.append(self.key(mat, False, kid, "", pick(rng, ["", a])))
            r, fine = rng.random(), only is not None and j != only
            if only is not None:
                r = 1 if fine else r * .42
            m = POOL[mat]
            if r < .15:
                m2 = POOL[mats_for(rng, a)]          # signed by somebody else
                m = m2
            if rng.random() < .15:
                h["jwk"] = jwk_of(m, False)
            elif rng.random() < .1:
                un["jwk"] = jwk_of(m, False)
            if rng.random() < .06 and not fine:
                h["crit"] = pick(rng, [["b64"], []])
            if rng.random() < .04 and not fine:
                un["crit"] = ["x"]
            h64 = b64u(json.dumps(h).encode())
            try:
                t = raw_sign(a, m, h64, p64)
            except progs.Fail:
                continue
            e = {"protected": h64.decode(), "signature": t.split(b".")[2].decode()}
            if .15 <= r < .25:
                e["signature"] = b64u(progs.b64d(e["signature"].encode())[:-1] + b"x").decode()
            elif r < .3:
                e["signature"] = ""
            elif r < .35:
                e = {"protected": b64u(b'{"alg":"none"}').decode(), "signature": ""}
            elif r < .38:
                e = {"signature": e["signature"]}
                un.update(h)
            elif r < .4:
                e = {"protected": e["protected"], "signature": pick(rng, entries)["signature"] if entries else "AA"}
            elif r < .42:
                un["alg"] = pick(rng, ALGS + ["none"])
            if un:
                e["header"] = un
            entries.append(e)
        doc = {"payload": p64.decode()}
        r = rng.random()
        if r < .06:
            doc["signatures"] = []
        elif r < .1:
            pass
        elif len(entries) == 1 and r < .7:
            doc.update(entries[0])
        elif r < .2:
            doc["signatures"] = entries
            if entries:
                if rng.random() < .5:
                    doc.update(entries[0])
                    doc["signatures"] = entries[1:] if rng.random() < .5 else entries[1:] + [dict(pick(rng, entries), signature="AAAA")]
                else:
                    doc["signature"] = entries[0]["signature"]
            else:
                doc["signature"] = ""
        elif r < .23:
            doc["signatures"] = {"0": entries[0] if entries else {}}
        else:
            doc["signatures"] = entries
        if rng.random() < .08:
            doc["payload"] = pick(rng, [b64u(b"other").decode(), "", p64.decode() + "=", 5, None, p64.decode() + ".x"])
        text = json.dumps(doc)
        if rng.random() < .03:
            text = pick(rng, ["[]", "{}", "5", '"x"', "nope", text + text])
        rng.shuffle(keys)
        if rng.random() < .3 and only is None:
            keys = keys[:-1]
        keys += self.decoys(alg, "", rng.choice([0, 0, 1]), False)
        ob = Obj(d, alg=alg) if rng.random() < .3 else Obj(d)
        for _ in range(rng.choice([1, 1, 2])):
            d.verify(ob, text, keys if rng.random() < .8 else [], none=rng.random() < .25,
                     sigalg=pick(rng, [None, None, None, alg]), what="forged document", docform=True)

    def jsonlong(self, raw, p64):
        """A long document, at most one of its signatures a false one"""
        d, rng = self.d, self.rng
        n = rng.choice([8, 9, 16, 17, 20, 33, 40])
        mats = [pick(rng, OCT) for _ in range(2)]
        entries = []
        bad = rng.choice([None, n - 1, rng.randrange(n)])
        for j in range(n):
            a = "HS" + rng.choice(["256", "384", "512"])
            s = raw_sign(a, POOL[pick(rng, mats)], b64u(json.dumps({"alg": a, "n": j}).encode()), p64).split(b".")
            if j == bad:
                s[2] = b64u(progs.b64d(s[2])[:-1]) if rng.random() < .5 else b64u(progs.b64d(s[2])[::-1])
            entries.append({"protected": s[0].decode(), "signature": s[2].decode()})
        d.verify(Obj(d), json.dumps({"payload": p64.decode(), "signatures": entries}), [self.key(m, True) for m in mats],
                 what="document of %d signatures" % n, docform=True)

    def history(self, steps=10):
        """A walk over one or two objects"""
        d, rng = self.d, self.rng
        d.reset()
        alg = pick(rng, ALGS)
        algs = [alg, alg, pick(rng, ALGS), pick(rng, ALGS)]
        mats = {a: mats_for(rng, a) for a in algs}
        kid = {a: pick(rng, KIDS) for a in algs}
        obs = [Obj(d) if rng.random() < .6 else Obj(d, **{k: v for k, v in (("alg", alg), ("kid", pick(rng, KIDS)), ("typ", "JWT"))
                                                          if rng.random() < .6})]
        if rng.random() < .3:
            obs.append(Obj(d, alg=algs[2]))
        if rng.random() < .15:
            obs.append(Obj(d, jwkkey=self.key(mats[alg], True, kid[alg]), alg=alg))
        toks = []
        for a in algs:
            h = {"alg": a}
            if kid[a] and rng.random() < .7:
                h["kid"] = kid[a]
            toks.append((a, make(a, POOL[mats[a]], json.dumps(h).encode(), b"history %d" % rng.randrange(99))))
        toks.append(("none", b64u(b'{"alg":"none"}') + b"." + b64u(b"unsecured") + b"."))
        docs = []
        for a, t in toks[:2]:
            h, p, s = t.decode().split(".")
            docs.append(json.dumps({"payload": p, "protected": h, "signature": s}))
            j = self.key(mats[a], False)
            un = {"jwk": jwk_of(POOL[mats[a]], False)}
            docs.append(json.dumps({"payload": p, "signatures": [{"protected": h, "header": un, "signature": s}]}))
        for _ in range(steps):
            ob = pick(rng, obs)
            a, t = pick(rng, toks)
            ks = []
            if rng.random() < .8:
                for x in set(algs):
                    if rng.random() < .6:
                        ks.append(self.key(mats[x], True, kid[x], pick(rng, ["", "", "sig", "enc"])))
            if rng.random() < .2:
                ks.append(self.key(mats_for(rng, alg), True, kid[alg]))
            rng.shuffle(ks)
            r = rng.random()
            if r < .45:
                if rng.random() < .35 and a != "none":
                    o = tamper(rng, t, POOL[mats[a]], [mats_for(rng, pick(rng, ALGS))])
                    w, t = pick(rng, o)
                    t = t() if callable(t) else t
                else:
                    w = "valid"
                d.verify(ob, t, ks, none=rng.random() < .3, sigalg=pick(rng, [None, None, None, a, alg]), what="history " + w)
            elif r < .6:
                msg = "hm%d" % rng.randrange(99)
                prot = pick(rng, [None, None, {}, {"typ": "T"}, {"kid": "zz"}])
                tok = d.sign(ob, msg, msg.encode(), ks, prot, "history")
                if tok and rng.random() < .6:
                    toks.append((pick(rng, algs), tok.encode()))
                    if toks[-1][1].split(b".")[2] == b"":
                        toks[-1] = ("none", toks[-1][1])
                    else:
                        hh = json.loads(progs.b64d(tok.split(".")[0].encode()))
                        toks[-1] = (hh["alg"], toks[-1][1])
                        if hh["alg"] not in mats:
                            toks.pop()
            elif r < .78:
                d.verify(ob, pick(rng, docs), ks, none=rng.random() < .3, what="history document", docform=True)
            elif r < .84:
                hs = [({"alg": alg}, None)] if rng.random() < .5 else [(None, {"x": 1}), ({"alg": alg, "kid": kid[alg]}, None)]
                if hasattr(ob, "o"):
                    d.sign_json(ob, "jm", b"jm", ks, hs, rng.random() < .5, "history")
            elif r < .94:
                d.classify(ob, pick(rng, [t, pick(rng, docs), "junk", b"a.b.c"]), "history")
            else:
                o = d.factory(t if rng.random() < .7 else t.decode(), "history")
                if o is not None:
                    obs.append(o)

    def classifying(self):
        d, rng = self.d, self.rng
        d.reset()
        alg = pick(rng, ALGS)
        mat = mats_for(rng, alg)
        tok = make(alg, POOL[mat], json.dumps({"alg": alg}).encode(), b"pay")
        opts = tamper(rng, tok, POOL[mat], [mats_for(rng, alg)])
        rng.shuffle(opts)
        cases = [("valid", tok)] + opts[:25]
        h, p, s = tok.decode().split(".")
        J = [{"payload": p, "signature": s, "protected": h}, {"payload": p, "signatures": []}, {"payload": p},
             {"payload": p, "signatures": [{"protected": h, "signature": s}]}, {"signature": s}, {"signatures": []}, {}, [], "x", 5, None, True,
             {"payload": None, "signature": None}, [{"payload": p, "signature": s}], "payload signature", ["payload", "signature"],
             {"protected": h, "ciphertext": "x", "iv": "y", "tag": "z"}]
        cases += [("json", json.dumps(x)) for x in rng.sample(J, 5)]
        J = [json.dumps(pick(rng, J[:4])) for _ in range(2)] + [json.dumps({"payload": p, "signatures": [{"protected": h, "signature": s}]}), tok.decode()]
        for _ in range(6):      # with something before or behind it, or cut
            x, y = pick(rng, J), pick(rng, [".", "..", "...", "}", "{", "]", ",", "x", "=", "\0", "'", ";", "null", "//", "[]", "{}", ".e30", "e30.", "\u00a0", "\x0b", "~", "#"])
            x = weighted(rng, [(x + y, 6), (y + x, 2), (x[:-1], 1), (x[1:], 1), (x[:-1] + y, 1), (x + x, .5)])
            cases.append(("mangled", x if rng.random() < .5 else x.encode()))
        cases += [("text", x) for x in rng.sample(["", ".", "..", "...", "a", "a.b", "a.b.c", "....", "{", "{}.{}.{}", "null", "1.5", "1.2.3",
                                                   b"", b"..", b"\xff.\xff.\xff", b"\xff", " " + tok.decode(), tok.decode() + " ", "\u00e9.b.c",
                                                   "e30..", "e30.e30.e30", tok + b"." + tok], 6)]
        for _ in range(6):
            x = pick(rng, list(ALGS) + ["none", "RSA-OAEP", "A128KW", "ECDH-ES", "RSA1_5", "A128GCM", "dir"])
            x = weighted(rng, [(x, 4), (x.lower(), 1), (x.upper(), 1), (x[:-1], 1), (x + "x", 1), (" " + x, 1), ([x], 1), ({x: 1}, 1), (pick(rng, [None, True, 0, 256, ""]), 1)])
            hd = {"alg": x}
            if rng.random() < .3:
                hd.update(pick(rng, [{"typ": "JWE"}, {"enc": "A128GCM"}, {"crit": ["x"], "x": 1}, {"typ": "JWT", "cty": "JWT"}]))
            n = weighted(rng, [(3, 6), (5, 2), (2, 1), (4, 1), (1, .5)])
            cases.append(("header", ".".join([b64u(json.dumps(hd).encode()).decode()] + [b64u(rng.randbytes(rng.randrange(12))).decode() for _ in range(n - 1)])))
        for w, t in cases:
            try:
                t = t() if callable(t) else t
            except (progs.Fail, KeyError):
                continue
            if rng.random() < .5:
                d.classify(Obj(d), t, w)
            else:
                ob = d.factory(t, w)
                if ob is not None and rng.random() < .5:
                    txt = t if isinstance(t, str) else t.decode("latin1")
                    d.verify(ob, t, [self.key(mat, False)] if rng.random() < .7 else [], none=rng.random() < .3, what="after factory " + w,
                             docform=txt.lstrip()[:1] == "{")

    MIX = {
        "C01": dict(forged=8, astray=1, recall=1, roundtrip=1, interop=1, ones=1, selection=1, jsonforged=1, history=1),
        "C02": dict(roundtrip=7, interop=5, selection=1, crowd=1, jsondoc=1.5),
        "C03": dict(ones=4, pins=4, forged=3, jsonforged=1, history=1),
        "C04": dict(selection=8, crowd=2, roundtrip=2, interop=1, jsondoc=1, history=1),
        "C05": dict(jsondoc=5, jsonforged=8, history=1),
        "C06": dict(history=8, recall=5, threads=3, preempted=4, forged=2, roundtrip=1, jsondoc=2, jsonforged=2),
        "C19": dict(classifying=8, history=1),
        "C20": dict(astray=8, pointed=3, history=1, jsonforged=1),
    }

    def steps(self, prop, behaviours, lists):
        """What to do, one scenario after the other"""
        mix = list(self.MIX[prop].items())
        rep = Replay(self, lists)
        behaviours = iter(behaviours)
        while True:
            b = next(behaviours, None)
            if b is not None:
                yield lambda: rep.run(b)
            for _ in range(2):
                yield getattr(self, weighted(self.rng, mix))
