"""X.509 certificates, written by hand (RFC 5280)."""
import base64
import hashlib
import os

import progs
from Cryptodome.PublicKey import ECC, RSA

OID_RSA = bytes.fromhex("2a864886f70d010101")
OID_SHA256RSA = bytes.fromhex("2a864886f70d01010b")
OID_CN = bytes.fromhex("550403")
OID_BC = bytes.fromhex("551d13")


def tlv(t, *parts):
    b = b"".join(parts)
    n = len(b)
    ln = bytes([n]) if n < 128 else bytes([0x80 + len(progs.i2b(n))]) + progs.i2b(n)
    return bytes([t]) + ln + b


def integer(x):
    b = progs.i2b(x)
    return tlv(2, b"\0" + b if b[0] & 0x80 else b)


def seq(*p):
    return tlv(0x30, *p)


def oid(b):
    return tlv(6, b)


def name(text):
    return seq(tlv(0x31, seq(oid(OID_CN), tlv(0x0c, text.encode())))) if text else seq()


def spki(m):
    if m.kty == "RSA":
        return seq(seq(oid(OID_RSA), tlv(5)), tlv(3, b"\0", seq(integer(m.n), integer(m.e))))
    return ECC.construct(curve=m.crv, point_x=m.x, point_y=m.y).export_key(format="DER")


def cert(rng, m, signer):
    """A certificate for the material m, signed by the RSA material signer"""
    alg = seq(oid(OID_SHA256RSA), tlv(5))
    v3 = rng.random() < .7
    body = []
    if v3:
        body.append(tlv(0xa0, integer(2)))
    body.append(integer(rng.choice([0, 1, 127, 128, rng.getrandbits(64), rng.getrandbits(159)])))
    body += [alg, name(rng.choice(["", "issuer", "i" * 200])), seq(tlv(0x17, b"200101000000Z"), tlv(0x18, b"20600101000000Z")),
             name(rng.choice(["", "subject", "\u00e9", "s" * 130])), spki(m)]
    if v3 and rng.random() < .5:
        body.append(tlv(0xa3, seq(seq(oid(OID_BC), tlv(1, b"\xff"), tlv(4, seq(tlv(1, b"\xff")))))))
    tbs = seq(*body)
    return seq(tbs, alg, tlv(3, b"\0", progs.rsa15sign(256, signer, tbs)))


def x5c(der):
    return base64.b64encode(der).decode()


def x5t(der):
    return progs.b64u(hashlib.sha1(der).digest()).decode()
