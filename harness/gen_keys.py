"""Generates keys.json, the fixed pool of key material the drivers use.
Run once; the result is committed so that every run sees the same keys."""
import json, sys, hashlib
from Cryptodome.PublicKey import RSA, ECC

pool = {}

def rsa(name, bits, e=65537):
    if bits >= 1024:
        k = RSA.generate(bits, e=e)
        n, d, p, q = k.n, k.d, k.p, k.q
    else:
        from Cryptodome.Util.number import getPrime, inverse
        while True:
            p, q = getPrime((bits + 1) // 2), getPrime(bits // 2)
            n = p * q
            try:
                d = pow(e, -1, (p - 1) * (q - 1))
            except ValueError:
                continue
            if n.bit_length() == bits and p != q:
                break
    n, d, p, q = map(int, (n, d, p, q))
    pool[name] = dict(kty="RSA", n=n, e=e, d=d, p=p, q=q)

def ec(name, crv, cond=lambda d, x, y: True, d=None):
    while True:
        k = ECC.construct(curve=crv, d=d) if d else ECC.generate(curve=crv)
        x, y, dd = int(k.pointQ.x), int(k.pointQ.y), int(k.d)
        if d or cond(dd, x, y):
            break
    pool[name] = dict(kty="EC", crv=crv, x=x, y=y, d=dd)

for n, b in [("r512", 512), ("r768", 768), ("r1024a", 1024), ("r1024b", 1024), ("r1024c", 1024),
             ("r1031", 1031), ("r2048a", 2048), ("r2048b", 2048), ("r2055", 2055), ("r3072", 3072)]:
    rsa(n, b)
rsa("r1024e3", 1024, 3); rsa("r1040", 1040); rsa("r1034", 1034)
W = {"P-256": 32, "P-384": 48, "P-521": 66}
for crv, s in [("P-256", "p256"), ("P-384", "p384"), ("P-521", "p521")]:
    ec(s + "a", crv); ec(s + "b", crv)
    top = 8 * (W[crv] - (2 if crv == "P-521" else 1))
    ec(s + "x0", crv, lambda d, x, y: x >> top == 0)
    ec(s + "y0", crv, lambda d, x, y: y >> top == 0)
    ec(s + "d0", crv, lambda d, x, y: d >> top == 0) if crv != "P-521" else ec(s + "d0", crv, d=2**500 + 12345)
    ec(s + "d2", crv, d=2)
def h(s, n):
    return hashlib.shake_256(s.encode()).digest(n)
for n in (1, 15, 16, 24, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 200):
    pool["o%d" % n] = dict(kty="oct", k=h("oct%d" % n, n).hex())
pool["o32z"] = dict(kty="oct", k=(b"\0\0" + h("oz", 30)).hex())
pool["o32e"] = dict(kty="oct", k=(h("oe", 30) + b"\0\0").hex())
pool["o32b"] = dict(kty="oct", k=h("ob", 32).hex())
pool["o16b"] = dict(kty="oct", k=h("o16b", 16).hex())
pool["otxt"] = dict(kty="oct", k=b"My hollow echo chamber, hej!".hex())
import os
if os.path.exists(sys.argv[1]):      # keep the keys there are
    pool.update(json.load(open(sys.argv[1])))
json.dump(pool, open(sys.argv[1], "w"), indent=0, sort_keys=True)
