"""Drives the command-line tools and records what they do (events for
spec/CliTrace.tla, C22).  The tools run in this process, their standard
input and output replaced, in a scratch directory of their own."""
import ast
import contextlib
import hashlib
import io
import json
import logging
import os
import random
import runpy
import shutil
import sys
import tempfile
import warnings

import absjwe
import absjws
import certs
import net
import progs
from absjws import forms, hdr_texts, header_of
from common import POOL, K, keyrec, mat_of_jwk, matname, name, native_rsa, odd_text, pick, weighted
from drv_jwe import ALGS as JWE_ALGS, ENCS, jwe_type
from drv_jwk import find
from drv_jws import jws_type, make
from progs import EcMat, RsaMat
from scen_jwe import Sender
from scen_src import pem

from Cryptodome.PublicKey import RSA
import jwkest

SCRIPTS = os.path.join(os.path.dirname(os.path.abspath(jwkest.__file__)), "..", "..", "script")
RSAS = ["r1024a", "r1024b", "r1031", "r1024e3", "r2048a", "r1040"]
OCTS = [n for n, m in POOL.items() if isinstance(m, bytes)]
ECS = [n for n, m in POOL.items() if isinstance(m, EcMat)]
RSA_SIG = ["RS256", "RS384", "RS512", "PS256", "PS384"]
NOOPTS = {"r": "", "k": [], "j": "", "J": "", "u": "", "x": "", "X": "", "kid": "", "alg": "", "typ": "", "encalg": "", "encenc": "",
          "n": 0, "size": 0, "name": ""}
EMPTY = {"kind": "none", "keys": []}


def native(m, private):
    return native_rsa(m, private)


class Scen(object):
    def __init__(self, rec, rng, programs):
        absjwe.PROG = absjws.PROG = programs
        self.rec, self.rng = rec, rng
        self.dir = tempfile.mkdtemp(prefix="cli", dir=os.path.dirname(os.path.abspath(rec.f.name)))
        self.web = net.Site()
        net.watch()
        logging.disable(logging.CRITICAL)
        warnings.simplefilter("ignore")
        self.creations = 0
        self.reset()

    def finish(self):
        self.web.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, f):
        return os.path.join(self.dir, f)

    def reset(self):
        self.rec.emit({"op": "reset"})
        self.web.pages.clear()
        for f in os.listdir(self.dir):
            p = self.path(f)
            if os.path.isdir(p):
                shutil.rmtree(p)
            else:
                os.unlink(p)
        os.mkdir(self.path("out"))
        self.site, self.tokens, self.count = {}, [], 0

    # -- running a tool

    def touched(self):
        """Whether a file was written since the last call"""
        t = False
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                t = t or os.stat(p).st_mtime != 1000
                os.utime(p, (1000, 1000))
        return t

    def listing(self):
        out = {}
        for d, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, self.dir)] = hashlib.sha256(h.read()).digest()
        return out

    def tool(self, script, args, stdin=""):
        """(out record, printed text, names of changed files)"""
        before, argv, cwd, inp = self.listing(), sys.argv, os.getcwd(), sys.stdin
        o, e = io.StringIO(), io.StringIO()
        out = {"kind": "ok", "quiet": True, "shown": [], "cls": "", "word": "", "more": False, "needs": False}
        sys.argv, sys.stdin = [script] + args, io.StringIO(stdin)
        os.chdir(self.dir)
        self.touched()
        try:
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
                runpy.run_path(os.path.join(SCRIPTS, script), run_name="__main__")
        except SystemExit as x:
            out.update(kind="exit", cls=str(x.code))
        except Exception as x:
            out.update(kind="err", cls=type(x).__name__ + " " + str(x)[:80])
        finally:
            sys.argv, sys.stdin = argv, inp
            os.chdir(cwd)
        t = o.getvalue()
        out["quiet"] = t == ""
        after = self.listing()
        # something came out and the exit status is 0
        if out["kind"] == "ok" or out["kind"] == "exit" and out["cls"] in ("None", "0"):
            out["kind"] = "ok" if t or self.touched() else "exit"
        t = t[:-1] if t.endswith("\n") else t
        out["needs"] = "key" in t.lower()
        out["shown"] = self.meanings(t)
        changed = sorted(f[4:] if f.startswith("out/") else f for f in set(before) | set(after) if before.get(f) != after.get(f))
        return out, t, changed

    @staticmethod
    def meanings(t):
        """Names of the values a printed text may stand for"""
        vs = {name(t), name(t.encode("utf-8", "surrogatepass"))}
        try:
            vs.add(name(ast.literal_eval(t)))
        except Exception:
            pass
        return sorted(vs)

    # -- places

    def new_place(self, web=False):
        self.count += 1
        return "%s%d" % ("w" if web else "f", self.count)

    def put(self, text, what, web=False, place=None, status=200):
        place = place or self.new_place(web)
        if web:
            self.web.put(place, text.encode("utf-8"), status, "text/plain; charset=utf-8")
        else:
            with open(self.path(place), "wb") as h:
                h.write(text.encode("utf-8"))
        what = what if status == 200 else EMPTY
        self.site[place] = what
        self.rec.emit({"op": "put", "place": place, "what": what}, {"text": text})
        return place

    def put_pem(self, mat, private, web=False):
        k = native(POOL[mat], private)
        return self.put(k.export_key(pkcs=pick(self.rng, [1, 8])).decode() + pick(self.rng, ["", "\n"]),
                        {"kind": "pem", "keys": [keyrec(POOL[mat], private)]}, web)

    def put_cert(self, mat, web=False):
        return self.put(pem("CERTIFICATE", certs.cert(self.rng, POOL[mat], POOL["r2048a"])) + "\n",
                        {"kind": "cert", "keys": [keyrec(POOL[mat], False)]}, web)

    def a_jwk(self, mat, private):
        rng = self.rng
        from common import jwk_of
        kid = pick(rng, ["", "", "k1", "k2", "a b", "\u00e9"])
        at = dict(kid=kid, use=weighted(rng, [("", 5), ("sig", 1), ("enc", 1)]))
        if rng.random() < .1:
            at["alg"] = pick(rng, ["RS256", "RSA-OAEP", "HS256", "A128KW", "ES256"])
        return jwk_of(POOL[mat], private, **at), keyrec(POOL[mat], private, **at)

    def put_jwk(self, mat, private):
        d, r = self.a_jwk(mat, private)
        return self.put(json.dumps(d), {"kind": "jwk", "keys": [r]})

    def put_jwks(self, mats, web=False, status=200):
        """mats: [(name, private)]"""
        ks = [self.a_jwk(m, p) for m, p in mats]
        return self.put(json.dumps({"keys": [k[0] for k in ks]}), {"kind": "jwks", "keys": [k[1] for k in ks]}, web, status=status)

    def put_other(self, web=False):
        return self.put(pick(self.rng, ["", "nothing", "{}", "[1]", "{", '{"keys": 7}', "-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----"]),
                        {"kind": "other", "keys": []}, web)

    def url(self, place):
        return self.web.base + place

    # -- messages and tokens

    def message(self):
        rng = self.rng
        r = rng.randrange(9)
        t = (json.dumps({"iss": "x", "n": rng.randrange(10**6)}) if r == 0 else odd_text(rng).replace("\r", "").replace("\x00", "") if r == 1
             else str(rng.randrange(1000)) if r == 2 else json.dumps([1, "a", None, True, {"b": 1.5}]) if r == 3
             else pick(rng, ['"text"', "true", "null", "{}", "[]", " x ", "x" * 2000, "\u00e9\u4e2d", "eyJhbGciOiJub25lIn0.e30."]) if r == 4
             else "message %d" % rng.randrange(10**6))
        if rng.random() < .15:
            t = pick(rng, ["", "\n", "\n\n"]) + t + pick(rng, ["\n", "\n\n", " \n"])
        return "m" + t if t.startswith("-") or t == "" else t

    def forms3(self, t):
        return {"asis": name(t.encode("utf-8", "surrogatepass")), "stripped": name(t.strip("\n").encode("utf-8", "surrogatepass"))}

    def give(self, text, via, args):
        """Puts the message where the tool is told to find it; (args, stdin)"""
        if via == "file":
            self.count += 1
            f = "m%d" % self.count
            with open(self.path(f), "wb") as h:
                h.write(text.encode("utf-8"))
            return args + ["-f", f], ""
        if via == "stdin":
            return args + ["-"], text
        return args + ["--", text], ""

    def vias(self, text):
        return weighted(self.rng, [("arg", 4), ("file", 3), ("stdin", 2)]) if "\0" not in text else "file"

    # -- jwkutil

    def util(self, opts, mode, text, via=None, alg="", typ="", encalg="", encenc="", kid="", what=""):
        """opts: {"r": place, "k": secret text, "j":, "J":, "u":}"""
        rng = self.rng
        via = via or self.vias(text)
        a = dict(NOOPTS, kid=kid, alg=alg, typ=typ, encalg=encalg, encenc=encenc)
        args = ["-" + c for c in mode]
        rng.shuffle(args)
        more, recs = [], []
        for o in "rkjJu":
            v = opts.get(o)
            if not v:
                continue
            if o == "k":
                a["k"] = [keyrec(v.encode())]
                recs += a["k"]
            else:
                a[o] = v
                recs += self.site.get(v, EMPTY)["keys"]
            more.append(["-" + o, self.url(v) if o == "u" else v])
        for f, v in (("-i", kid), ("-a", alg), ("-t", typ), ("-A", encalg), ("-E", encenc)):
            if v:
                more.append([f, v])
        rng.shuffle(more)
        args += [x for m in more for x in m]
        args, stdin = self.give(text, via, args)
        out, shown, changed = self.tool("jwkutil.py", args, stdin)
        mats = [r["mat"] for r in recs]
        told = text.strip("\n") if via == "file" else text
        ev = {"op": "util", "a": a, "mode": mode, "via": via, "msg": self.forms3(text), "out": out, "changed": changed,
              "base": {k: '"%s"' % v for k, v in (("alg", encalg), ("enc", encenc)) if v}, "inner": "", "intext": True,
              "oj": absjws.NONE, "hj": {}, "oe": absjwe.NONE, "he": {}, "ij": absjws.NONE, "ie": absjwe.NONE}
        if mode in ("s", "e", "se") and out["kind"] == "ok":
            tok = shown
            if "e" in mode:
                ev["oe"] = absjwe.abstract(tok, mats)[0]
                ev["he"] = hdr_texts(tok.split(".")[0].encode("utf-8", "replace"))
                if mode == "se":
                    tok = (self.opened(tok, mats) or b"").decode("utf-8", "replace")
                    ev["inner"] = name(tok.encode())
            if "s" in mode:
                ev["oj"] = absjws.abstract(tok, mats)
                ev["hj"] = hdr_texts(tok.split(".")[0].encode("utf-8", "replace"))
        elif mode in ("d", "v", "dv"):
            tok = told
            if "d" in mode:
                ev["ie"] = absjwe.abstract(tok, mats)[0]
                raw = self.opened(tok, mats)
                tok, ev["intext"] = self.text(raw)
            if "v" in mode:
                ev["ij"] = absjws.abstract(tok, mats)
        self.rec.emit(ev, {"what": what, "args": args, "told": told, "printed": shown[:3000], "site": {p: self.site[p] for p in (a["r"], a["j"], a["J"], a["u"]) if p in self.site}})
        return shown if out["kind"] == "ok" else None

    @staticmethod
    def text(raw):
        try:
            return (raw or b"").decode("utf-8"), True
        except UnicodeDecodeError:
            return "", False

    def opened(self, token, mats):
        """The plaintext, by the programs of the specification"""
        try:
            parts = token.encode("utf-8").split(b".")
        except UnicodeEncodeError:
            return None
        t, _, _ = absjwe.abstract(token, mats)
        for o in t["opens"]:
            h = header_of(parts[0]) or {}
            ep = absjwe.epk_of(h)[2]
            r = absjwe.open_with(t["alg"], t["enc"], t["zip"] == "DEF", parts, POOL[o["mat"]], ep,
                                 absjwe.party(h, "apu")[0], absjwe.party(h, "apv")[0])
            if r:
                return r[0]
        return None

    # -- jwenc, jwdecrypt

    def enc_args(self, opts):
        a, more, recs = dict(NOOPTS), [], []
        for o in "JjXxr":
            if opts.get(o):
                a[o] = opts[o]
                more.append(["-" + o, self.url(opts[o]) if o in "JX" else opts[o]])
                recs += self.site.get(opts[o], EMPTY)["keys"]
        self.rng.shuffle(more)
        return a, [x for m in more for x in m], [r["mat"] for r in recs]

    def enc(self, opts, text, alg, enc, via=None, what=""):
        via = via or self.vias(text)
        a, args, mats = self.enc_args(opts)
        a.update(encalg=alg, encenc=enc)
        args += (["-a", alg] if alg else []) + (["-e", enc] if enc else [])
        args, stdin = self.give(text, via, args)
        out, tok, changed = self.tool("jwenc.py", args, stdin)
        ev = {"op": "enc", "a": a, "via": via, "msg": self.forms3(text), "out": out, "changed": changed, "oe": absjwe.NONE, "he": {},
              "base": {k: '"%s"' % v for k, v in (("alg", alg), ("enc", enc)) if v}}
        if out["kind"] == "ok":
            ev["oe"] = absjwe.abstract(tok, mats)[0]
            ev["he"] = hdr_texts(tok.split(".")[0].encode("utf-8", "replace"))
        self.rec.emit(ev, {"what": what, "args": args, "told": text, "printed": tok[:3000]})
        return tok if out["kind"] == "ok" else None

    def dec(self, opts, token, what=""):
        rng = self.rng
        via = pick(rng, ["arg", "file"])
        a, args, mats = self.enc_args(opts)
        args, stdin = self.give((pick(rng, ["", "", "", "\n", "\r\n"]) if via == "file" else "") + token + (pick(rng, ["", "\n", "\r\n", "\n\n"]) if via == "file" else ""), via, args)
        out, text, changed = self.tool("jwdecrypt.py", args, stdin)
        ie = absjwe.abstract(token.strip("\n\r") if via == "file" else token, mats)[0]
        self.rec.emit({"op": "dec", "a": a, "via": via, "out": out, "changed": changed, "ie": ie,
                       "intext": self.text(self.opened(token, mats))[1]}, {"what": what, "args": args, "token": token, "printed": text[:3000]})

    # -- makers of keys

    def gen(self):
        rng = self.rng
        n, kid = pick(rng, [1, 12, 16, 31, 32, 48, 48, 64, 200]), pick(rng, ["", "", "k1", "\u00e9 1"])
        args = (["-n", str(n)] if n != 48 or rng.random() < .5 else []) + (["--kid", kid] if kid else [])
        if rng.random() < .5:
            random.seed(rng.randrange(3))
        out, text, changed = self.tool("gen_symkey.py", args)
        got = {"kty": "", "length": 0, "simple": False, "kid": "", "mat": ""}
        try:
            d = json.loads(text)
            (k,) = d["keys"]
            m = mat_of_jwk(k)
            got = {"kty": k["kty"], "length": len(m), "simple": set(m) <= set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") and set(d) == {"keys"},
                   "kid": k.get("kid", ""), "mat": matname(m)}
        except Exception:
            pass
        self.rec.emit({"op": "gen", "a": dict(NOOPTS, n=n, kid=kid), "out": out, "changed": changed, "got": got}, {"args": args, "printed": text})
        if got["length"] >= 12:
            return self.put(text, {"kind": "jwks", "keys": [keyrec(m, True, kid)]})
        return None

    def read_file(self, f):
        """What a file written by a tool holds"""
        p = self.path(f) if os.path.exists(self.path(f)) else self.path("out/" + f)
        try:
            with open(p) as h:
                t = h.read()
        except (IOError, UnicodeDecodeError):
            return dict(EMPTY), ""
        try:
            d = json.loads(t)
            if "keys" in d:
                return {"kind": "jwks", "keys": [self.of_jwk(k) for k in d["keys"]]}, t
            return {"kind": "jwk", "keys": [self.of_jwk(d)]}, t
        except Exception:
            pass
        try:
            k = RSA.import_key(t)
            m = RsaMat(int(k.n), int(k.e), int(k.d), int(k.p), int(k.q)) if k.has_private() else RsaMat(int(k.n), int(k.e))
            return {"kind": "pem", "keys": [keyrec(m, k.has_private())]}, t
        except Exception:
            return {"kind": "other", "keys": []}, t

    @staticmethod
    def of_jwk(d):
        if not all(isinstance(v, str) for v in d.values()) or any(absjws.b64class(d[m].encode()) != "canon" for m in "ne"):
            raise ValueError
        return keyrec(mat_of_jwk(d), bool(set(d) & {"d", "p", "q", "dp", "dq", "qi", "oth"}), **{m: d.get(m, "") for m in ("kid", "use", "alg")})

    def where(self):
        """Directory and name for what a tool writes"""
        rng = self.rng
        self.count += 1
        nm = pick(rng, ["key%d", "k.%d", "k %d"]) % self.count if rng.random() < .8 or not self.site else \
            pick(rng, sorted({p.rsplit(".", 1)[0] for p in self.site if p[-4:] in (".key", ".pub", ".jwk")}) or ["key%d" % self.count])
        return nm

    def create(self, nm=None):
        rng = self.rng
        nm = nm or self.where()
        size = pick(rng, [1024, 1024, 1024, 1024, 1032, 1536])
        if rng.random() < .15:
            size = pick(rng, [0, 512, 1023, -5])
        elif self.creations > 25 and rng.random() < .9:
            return None
        self.creations += 1
        args = ["-n", nm] + (["-s", str(size)] if size != 1024 or rng.random() < .5 else []) + (["-p", pick(rng, [".", self.dir])] if rng.random() < .5 else [])
        out, text, changed = self.tool("jwk_create.py", args)
        files, texts = {}, {}
        for x in (".key", ".pub", ".jwk"):
            files[nm + x], texts[x] = self.read_file(nm + x)
        key = files[nm + ".key"]["keys"][0] if files[nm + ".key"]["keys"] else keyrec(b"", False)
        if key["mat"] in POOL and isinstance(POOL[key["mat"]], RsaMat):
            m = self.full(texts[".key"])
            if m is not None:
                POOL[key["mat"]] = m
        private = bool(key["mat"] in POOL and isinstance(POOL[key["mat"]], RsaMat) and POOL[key["mat"]].d and find(texts[".pub"] + texts[".jwk"], [POOL[key["mat"]]]))
        self.rec.emit({"op": "create", "a": dict(NOOPTS, name=nm, size=size), "sizeok": size >= 1024, "out": out, "changed": changed,
                       "got": {"key": key, "files": files, "private": private}}, {"args": args, "printed": text, "texts": texts})
        if out["kind"] == "ok":
            for x in files:
                self.site[x] = files[x]
            return nm
        return None

    @staticmethod
    def full(t):
        try:
            k = RSA.import_key(t)
            return RsaMat(int(k.n), int(k.e), int(k.d), int(k.p), int(k.q)) if k.has_private() else None
        except Exception:
            return None

    def export(self, src, nm=None):
        nm = nm or self.where()
        args = ["-k", src, "-n", nm] + (["-p", pick(self.rng, [".", self.dir])] if self.rng.random() < .5 else [])
        out, text, changed = self.tool("jwk_export.py", args)
        got, t = self.read_file(nm + ".jwk")
        ks = self.site.get(src, EMPTY)["keys"]
        ms = [POOL[k["mat"]] for k in ks if k["mat"] in POOL and isinstance(POOL[k["mat"]], RsaMat) and POOL[k["mat"]].d]
        self.rec.emit({"op": "export", "a": dict(NOOPTS, k=src, name=nm), "out": out, "changed": changed,
                       "got": {"files": {nm + ".jwk": got}, "private": bool(find(t, ms)) if out["kind"] == "ok" else False}},
                      {"args": args, "printed": text, "text": t})
        if out["kind"] == "ok":
            self.site[nm + ".jwk"] = got
        return nm if out["kind"] == "ok" else None

    # -- peek

    def peek(self, token, what=""):
        try:
            token.encode("utf-8")
        except UnicodeEncodeError:
            return
        if "\0" in token:
            return
        out, text, changed = self.tool("peek.py", [token])
        je, js = jwe_type(token)[0], jws_type(token)[0]
        typ = "jwe" if je == "jwe" else "either" if je == "either" else "jws" if js == "jws" and token.count(".") == 2 and not token.lstrip().startswith("{") \
            else "not" if js == "not" else "either"
        ij = absjws.abstract(token, [])
        if ij["algk"] == "null":        # shown as none
            typ = "either"
        lines = text.split("\n")
        out["word"], out["more"] = lines[0], len(lines) > 1
        got = {"hdr": {}, "pay": ""}
        if lines[0] == "jws" and len(lines) >= 3:
            try:
                h = ast.literal_eval(lines[1])
                got["hdr"] = hdr_texts(progs.b64u(json.dumps(h).encode()))
                got["pay"] = name(ast.literal_eval("\n".join(lines[2:])))
            except Exception:
                pass
        self.rec.emit({"op": "peek", "a": NOOPTS, "out": out, "changed": changed, "type": typ, "ij": ij,
                       "hj": hdr_texts(token.split(".")[0].encode()) if typ == "jws" else {}, "got": got}, {"what": what, "token": token, "printed": text[:2000]})

    # -- scenarios

    def keyfile(self, mat, private, o):
        """A place that option o can take this key from"""
        m = POOL[mat]
        if o == "r" or o == "x":
            return self.put_pem(mat, private) if private or self.rng.random() < .5 else self.put_cert(mat)
        if o == "X":
            return self.put_cert(mat, True)
        if o == "j":
            return self.put_jwk(mat, private)
        others = [(pick(self.rng, RSAS + OCTS + ECS), self.rng.random() < .6) for _ in range(self.rng.randrange(3))]
        ms = others + [(mat, private or isinstance(m, bytes))]
        self.rng.shuffle(ms)
        return self.put_jwks(ms, web=o in "uW")

    def util_opts(self, mat, private, decoys=True):
        rng, m = self.rng, POOL[mat]
        os_ = ["j", "J", "u"] + (["r", "r"] if isinstance(m, RsaMat) else [])
        o = pick(rng, os_)
        opts = {o: self.keyfile(mat, private, o)}
        if decoys and rng.random() < .4:
            for o in pick(rng, ["r", "k", "j", "J", "u", "kj"]):
                if o in opts:
                    continue
                if o == "k":
                    opts["k"] = pick(rng, ["secret", "another secret", "\u00e9"])
                else:
                    opts[o] = self.keyfile(pick(rng, RSAS if o == "r" else RSAS + OCTS + ECS), rng.random() < .6, o)
        if rng.random() < .04:
            x = pick(rng, ["r", "j", "J", "u"])
            opts[x] = pick(rng, [lambda: self.put_other(x == "u"), lambda: "nowhere%d" % rng.randrange(9)] +
                           ([lambda: self.put_jwks([(mat, True)], True, 404)] if x == "u" else []))()
        return opts

    def sigalg(self, mat):
        m = POOL[mat]
        return pick(self.rng, ["HS256", "HS384", "HS512"] if isinstance(m, bytes) else RSA_SIG if isinstance(m, RsaMat)
                    else [{"P-256": "ES256", "P-384": "ES384", "P-521": "ES512"}[m.crv]])

    def encalg(self, mat):
        m, rng = POOL[mat], self.rng
        enc = pick(rng, ENCS[:3]) if rng.random() < .8 else pick(rng, ENCS)
        if isinstance(m, RsaMat):
            a = pick(rng, ["RSA1_5", "RSA-OAEP", "RSA-OAEP-256"])
            return a, pick(rng, ENCS[:1]) if m.n.bit_length() < 1100 and a == "RSA-OAEP-256" else enc
        return (pick(rng, ["A128KW", "A192KW", "A256KW"]) if isinstance(m, bytes) else pick(rng, ["ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A256KW"])), enc

    def any_mat(self, bias=.5):
        return pick(self.rng, RSAS) if self.rng.random() < bias else pick(self.rng, OCTS + ECS)

    def sign_verify(self):
        rng = self.rng
        mat = self.any_mat()
        alg = self.sigalg(mat) if rng.random() < .93 else pick(rng, ["", "none", "RS256", "HS256", "XX256"])
        kid = pick(rng, ["", "", "a0", "b c"])
        so = self.util_opts(mat, rng.random() < .95)
        if isinstance(POOL[mat], bytes) and rng.random() < .4:
            so = {"k": pick(rng, ["secret", "p\u00e4ss", "x" * 70, "correct horse"])}
        tok = self.util(so, "s", self.message(), alg=alg, kid=kid, typ=pick(rng, ["", "", "JWT", "a b"]), what="sign")
        if tok is None:
            return
        if "k" in so and not set(so) - {"k"}:
            vo = dict(so) if rng.random() < .8 else {"k": so["k"] + "x"}
        else:
            vo = pick(rng, [lambda: so, lambda: self.util_opts(mat, rng.random() < .3), lambda: self.util_opts(self.any_mat(), True)])()
        self.util(vo, "v", tok, kid=pick(rng, [kid, kid, "", "zz"]), what="verify")
        self.util(vo, "v", self.bent(tok), kid=kid, what="verify altered")
        if rng.random() < .3:
            self.peek(tok)
        self.tokens.append(tok)

    def bent(self, tok):
        """A token with something changed"""
        rng, p = self.rng, tok.split(".")
        r = rng.randrange(8)
        i = rng.randrange(len(p))
        if r == 7:
            return pick(rng, [tok + "\nand more", tok + "\n" + tok, "x\n" + tok, tok + "\n.", tok + " \n", tok[:9] + "\n" + tok[9:], tok + "\n#", tok + " x"])
        if r == 0 and len(p[i]) > 4:
            j = rng.randrange(len(p[i]) - 1)
            p[i] = p[i][:j] + pick(rng, "ABab01-_") + p[i][j + 1:]
        elif r == 1 and self.tokens:
            q = pick(rng, self.tokens).split(".")
            p[i] = q[i % len(q)]
        elif r == 2:
            h = header_of(p[0].encode()) or {}
            h["alg"] = pick(rng, ["none", "None", "HS256", "RS256", "RSA-OAEP", "A128KW"])
            p[0] = progs.b64u(json.dumps(h).encode()).decode()
        elif r == 3:
            h = header_of(p[0].encode()) or {}
            h.update(pick(rng, [{"crit": ["exp"]}, {"kid": "other"}, {"cty": "JWT"}, {"typ": "x"}]))
            p[0] = progs.b64u(json.dumps(h).encode()).decode()
        elif r == 4:
            p[-1] = ""
        elif r == 5:
            p = p[:-1] if rng.random() < .5 else p + [""]
        elif r == 6 and len(p) > 1:
            p[1] = progs.b64u(b'{"iss": "mallory"}').decode()
        return ".".join(p)

    def forged(self):
        """Tokens made by others"""
        rng = self.rng
        mat, alg = None, None
        mat = self.any_mat()
        alg = self.sigalg(mat)
        if isinstance(POOL[mat], RsaMat) and POOL[mat].n.bit_length() < 1024 and alg not in ("RS256", "PS256"):
            return
        hdr = {"alg": alg}
        if rng.random() < .5:
            hdr.update(pick(rng, [{"kid": "k1"}, {"typ": "JWT"}, {"cty": "text/plain"}, {"crit": ["b"]}, {"jku": "http://127.0.0.1:9/"}, {"kid": "a0"}]))
        raw = self.message().encode("utf-8", "replace") if rng.random() < .9 else rng.randbytes(5)
        tok = make(alg, POOL[mat], json.dumps(hdr).encode(), raw).decode("latin1")
        if rng.random() < .2:
            h = dict(hdr, alg=pick(rng, ["none", "NONE", None]))
            tok = "%s.%s." % (progs.b64u(json.dumps(h).encode()).decode(), tok.split(".")[1])
        vo = self.util_opts(mat if rng.random() < .7 else self.any_mat(), rng.random() < .3)
        self.util(vo, "v", tok, kid=pick(rng, ["", "", "k1", "a0"]), what="verify foreign")
        self.util(vo, "v", self.bent(tok), what="verify foreign altered")
        self.tokens.append(tok)

    def seal_open(self):
        rng = self.rng
        mat = self.any_mat(.6)
        alg, enc = self.encalg(mat)
        if rng.random() < .06:
            alg, enc = pick(rng, [(alg, "A128CBC"), ("RSA", enc), ("", enc), (alg, ""), ("dir", enc)])
        msg = self.message()
        use_util = rng.random() < .5
        if use_util:
            tok = self.util(self.util_opts(mat, rng.random() < .5), "e", msg, encalg=alg, encenc=enc, kid=pick(rng, ["", "", "a0"]), what="encrypt")
        else:
            tok = self.enc(self.enc_opts(mat, rng.random() < .5), msg, alg, enc, what="jwenc")
        if tok is None:
            return
        self.reopen(tok, mat)
        self.tokens.append(tok)

    def enc_opts(self, mat, private):
        rng = self.rng
        os_ = ["j", "J"] + (["r", "x"] + ([] if private else ["X"]) if isinstance(POOL[mat], RsaMat) else [])
        o = pick(rng, os_)
        opts = {o: self.keyfile(mat, private, "W" if o == "J" else "J" if o == "j" else o)}
        if rng.random() < .2:
            o2 = pick(rng, ["j", "J", "r", "x", "X"])
            if o2 not in opts:
                opts[o2] = self.keyfile(pick(rng, RSAS), rng.random() < .5, "W" if o2 == "J" else "J" if o2 == "j" else o2)
        if rng.random() < .05:
            o3 = pick(rng, "jJrxX")
            opts = {o3: pick(rng, [lambda: self.put_other(o3 in "JX"), lambda: "nowhere",
                                   lambda: self.put_jwks([(mat, True)], o3 in "JX", 500 if o3 in "JX" else 200) if o3 != "j" else self.put_jwk(mat, True)])()}
        elif rng.random() < .03:
            opts = {}
        return opts

    def reopen(self, tok, mat):
        rng = self.rng
        for t, w in ((tok, "open"), (self.bent(tok), "open altered")):
            m, private = (mat, rng.random() < .8) if rng.random() < .8 else (self.any_mat(), True)
            if rng.random() < .5:
                self.util(self.util_opts(m, private), "d", t, kid=pick(rng, ["", "a0"]), what=w)
            else:
                self.dec(self.enc_opts(m, private), t, what=w)
        if rng.random() < .3:
            self.peek(tok)

    def foreign_jwe(self):
        rng = self.rng
        mat = self.any_mat(.6)
        alg, enc = self.encalg(mat)
        m = POOL[mat]
        if isinstance(m, RsaMat) and (m.n.bit_length() + 7) // 8 - 66 < 64 and alg == "RSA-OAEP-256":
            alg = "RSA1_5"
        raw = self.message().encode("utf-8", "replace") if rng.random() < .9 else b"\xff\xfe" + rng.randbytes(4)
        tok = Sender(rng, alg, enc, m, raw, {"kid": "k1"} if rng.random() < .3 else {}, rng.random() < .3).token().decode()
        self.reopen(tok, mat)
        self.tokens.append(tok)

    def nested(self):
        rng = self.rng
        smat, emat = self.any_mat(), self.any_mat(.6)
        alg = self.sigalg(smat)
        ealg, enc = self.encalg(emat)
        opts = {"J": self.put_jwks([(smat, True), (emat, rng.random() < .5)]) if rng.random() < .5 else self.put_jwks([(emat, True), (smat, True)])}
        tok = self.util(opts, "se", self.message(), alg=alg, encalg=ealg, encenc=enc, what="sign and encrypt")
        if tok is None:
            return
        vo = {"J": self.put_jwks([(smat, rng.random() < .3), (emat, rng.random() < .9)])} if rng.random() < .8 else opts
        for t in (tok, self.bent(tok)):
            self.util(vo, "dv", t, what="decrypt and verify")
        if rng.random() < .5:
            self.util(vo, "d", tok, what="decrypt only")
        # what was encrypted is signed by somebody else, or by nobody
        inner = make(alg, POOL[smat], json.dumps({"alg": alg}).encode(), b"inner %d" % rng.randrange(99)).decode()
        inner = pick(rng, [lambda: inner, lambda: self.bent(inner), lambda: "%s.%s." % (progs.b64u(b'{"alg":"none"}').decode(), inner.split(".")[1]),
                           lambda: "no token"])()
        m = POOL[emat]
        if not (isinstance(m, RsaMat) and ealg == "RSA-OAEP-256" and m.n.bit_length() < 1100):
            t = Sender(rng, ealg, enc, m, inner.encode()).token().decode()
            self.util({"J": self.put_jwks([(pick(rng, [smat, smat, self.any_mat()]), False), (emat, True)])}, "dv", t, what="decrypt and verify foreign")

    def made_keys(self):
        rng = self.rng
        nm = self.create()
        if nm is None:
            p = self.gen()
            if p:
                tok = self.util({"J": p}, "s", self.message(), alg="HS256", what="sign with a generated secret")
                if tok:
                    self.util({"J": p}, "v", tok, what="verify with it")
                    q = self.gen()
                    if q:
                        self.util({"J": q}, "v", tok, what="verify with another")
            return
        if rng.random() < .6:
            self.export(nm + pick(rng, [".key", ".pub"]), nm + pick(rng, ["", "x"]))
        tok = self.util({"r": nm + ".key"}, "s", self.message(), alg="RS256", what="sign with a made key")
        if tok:
            j = nm + ".jwk"
            self.util({"J" if self.site[j]["kind"] == "jwks" else "j": j} if rng.random() < .6 else {"r": nm + ".pub"}, "v", tok, what="verify with its public file")
        tok = self.enc({"r": nm + ".pub"}, self.message(), "RSA-OAEP", "A128CBC-HS256", what="encrypt to a made key")
        if tok:
            self.dec({"r": nm + pick(rng, [".key", ".key", ".pub"])}, tok, what="open with a made key")
        if self.count < 60 and rng.random() < .3:
            self.create(nm)

    def exporting(self):
        rng = self.rng
        mat, private = pick(rng, RSAS), rng.random() < .7
        src = pick(rng, [lambda: self.put_pem(mat, private), lambda: self.put_cert(mat), lambda: self.put_other(), lambda: self.put_jwk(mat, True), lambda: "nowhere"]
                   if rng.random() < .5 else [lambda: self.put_pem(mat, private)])()
        nm = self.export(src)
        if nm:
            tok = self.enc({"j": nm + ".jwk"}, self.message(), "RSA-OAEP", "A256CBC-HS512", what="encrypt to an exported key")
            if tok:
                self.dec({"r": src} if rng.random() < .5 else {"j": nm + ".jwk"}, tok, what="open")
            self.util({"J": nm + ".jwk"}, "s", self.message(), alg="RS256", what="sign with a public key")

    def odd_parts(self):
        """A good header, and any number of parts"""
        rng = self.rng
        h = {"alg": pick(rng, ["RS256", "none", "RSA-OAEP", "A128KW", "ECDH-ES", "HS256", "dir", "", 7])}
        if rng.random() < .6:
            h["enc"] = pick(rng, ["A128CBC-HS256", "A256GCM", "A128CBC", ""])
        if rng.random() < .3:
            h["typ"] = pick(rng, ["JWE", "JWT", "JOSE"])
        return ".".join([progs.b64u(json.dumps(h).encode()).decode()] + ["AAAA"] * pick(rng, [1, 2, 2, 3, 4, 4, 4, 5]))

    def peeking(self):
        rng = self.rng
        t = pick(rng, [lambda: "abc", lambda: "a.b", lambda: "a.b.c", lambda: "..", lambda: "....", lambda: "a.b.c.d.e",
                       lambda: "eyJhbGciOiJub25lIn0.e30.", lambda: "eyJ0eXAiOiJKV1QifQ.e30.", lambda: "%s.e30." % progs.b64u(b'{"alg":"HS999"}').decode(),
                       self.odd_parts, self.odd_parts, lambda: self.bent(pick(rng, self.tokens)) if self.tokens else "x", lambda: pick(rng, self.tokens) if self.tokens else "y"])()
        self.peek(t, "peek")

    def keyless(self):
        rng = self.rng
        t = pick(rng, self.tokens) if self.tokens else "eyJhbGciOiJub25lIn0.e30."
        self.util({}, pick(rng, ["s", "v", "e", "d", "dv", "se"]), t, alg=pick(rng, ["", "none", "HS256"]), encalg="A128KW", encenc="A128CBC-HS256", what="no key")
        self.dec({}, t, what="no key")
        self.enc({}, t, "A128KW", "A128CBC-HS256", what="no key")

    # -- behaviours of the specification

    def replay(self, beh):
        rng = self.rng
        self.reset()
        pool = rng.sample(["r1024a", "r1024b", "r1024e3", "r1040", "r2048a"], 4)
        sec = rng.sample(OCTS, 2)
        alias, toks, msgs = {}, {}, {}

        def place(p):
            return alias.get(p, p)

        def mat(m):
            return pool[int(m[1]) - 1] if m[0] == "R" else sec[int(m[1]) - 1]

        def msg(x):
            return msgs.setdefault(x, "%s %d" % (x, rng.randrange(10**6)))
        for act in beh:
            a = act["a"]
            if a == "create":               # the key pair as jwk_create leaves it; now and then really made by it
                nm, m = act["name"], mat(act["mat"])
                if self.creations < 12 and rng.random() < .2:
                    real = self.create("b%d%s" % (self.count, nm))
                    self.count += 1
                    if real:
                        for x in (".key", ".pub", ".jwk"):
                            alias[nm + x] = real + x
                        continue
                alias[nm + ".key"] = self.put_pem(m, True)
                alias[nm + ".pub"] = self.put_pem(m, False)
                from common import jwk_of
                alias[nm + ".jwk"] = self.put(json.dumps(jwk_of(POOL[m], False)), {"kind": "jwk", "keys": [keyrec(POOL[m], False)]})
            elif a == "export":
                self.count += 1
                nm = self.export(place(act["src"]), "e%d" % self.count)
                if nm is None:
                    return
                alias[act["name"] + ".jwk"] = nm + ".jwk"
            elif a == "gen":
                p = self.gen()
                while p is None:
                    p = self.gen()
                alias[act["name"]] = p
            else:
                o = {act["opt"]: place(act["place"])}
                via = None
                if a == "sign":
                    toks[act["tok"]] = self.util(o, "s", msg(act["msg"]), via, alg=act["alg"], what="replay")
                elif a == "sealutil":
                    toks[act["tok"]] = self.util(o, "e", msg(act["msg"]), via, encalg=act["alg"], encenc="A128CBC-HS256", what="replay")
                elif a == "seal":
                    toks[act["tok"]] = self.enc(o, msg(act["msg"]), act["alg"], "A128CBC-HS256", what="replay")
                elif a == "nest":
                    toks[act["tok"]] = self.util(o, "se", msg(act["msg"]), via, alg=act["alg"], encalg=act["encalg"], encenc="A128CBC-HS256", what="replay")
                else:
                    t = toks.get(act["tok"])
                    if t is None:
                        return
                    if a == "verify":
                        self.util(o, "v", t, what="replay")
                    elif a == "openutil":
                        self.util(o, "d", t, what="replay")
                    elif a == "openverify":
                        self.util(o, "dv", t, what="replay")
                    else:
                        self.dec(o, t, what="replay")
                if a in ("sign", "seal", "sealutil", "nest") and toks[act["tok"]] is None:
                    return

    MIX = [("sign_verify", 6), ("forged", 3), ("seal_open", 6), ("foreign_jwe", 2), ("nested", 3), ("made_keys", 1.5), ("exporting", 1.5),
           ("peeking", 2.5), ("keyless", .4)]

    def steps(self, prop, behaviours, lists):
        for b in behaviours:
            yield lambda: self.replay(b)
        n = 0
        while True:
            n += 1
            if n % 12 == 1:
                self.reset()
            yield getattr(self, weighted(self.rng, self.MIX))
