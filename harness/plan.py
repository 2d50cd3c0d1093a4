"""What each check runs.

drivers: (driver module, processes, calls per process, seconds at most)
models: (module, configuration, TLC workers)
behaviours: (driver module, TLA+ module, configuration, number, depth)"""
TRACE = {"jws": "JwsTrace", "jwe": "JweTrace", "jwk": "JwkTrace", "keys": "KeysTrace", "codec": "CodecTrace", "ec": "EcTrace",
         "prim": "PrimTrace", "fresh": "FreshTrace", "src": "SrcTrace", "pbk": "PbkTrace", "cli": "CliTrace"}


def jws(calls=8000, thorough=60000):
    return {"quick": [("jws", 8, calls, 65)], "thorough": [("jws", 8, thorough, 500)]}


JWSSYS = {"quick": [("MCJwsSys", "MCJwsSys_Quick", 3)], "thorough": [("MCJwsSys", "MCJwsSys_Full", 6)]}
JWSFMT = {"quick": [("MCJwsSys", "MCJwsSys_Quick", 3), ("MCFormatSys", "MCFormatSys_Jws", 1)],
          "thorough": [("MCJwsSys", "MCJwsSys_Full", 6), ("MCFormatSys", "MCFormatSys_Jws", 1)]}
JWSBEH = {"quick": [("jws", "MCJwsSys", "MCJwsSys_Sim", 400, 14)], "thorough": [("jws", "MCJwsSys", "MCJwsSys_Sim", 8000, 14)]}


def drv(*mods, n=8, secs=65, thorough=400):
    """n processes, shared out among the drivers"""
    k = n // len(mods)
    return {"quick": [(m, k, 100000, secs) for m in mods], "thorough": [(m, k, 1000000, thorough) for m in mods]}


JWESYS = {"quick": [("MCJweSys", "MCJweSys_Quick", 3)], "thorough": [("MCJweSys", "MCJweSys_Full", 8)]}
JWEBEH = {"quick": [("jwe", "MCJweSys", "MCJweSys_Sim", 40, 14)], "thorough": [("jwe", "MCJweSys", "MCJweSys_Sim", 1000, 14)]}
JWEFMT = {"quick": [("MCJweSys", "MCJweSys_Quick", 3), ("MCFormatSys", "MCFormatSys_Quick", 1)],
          "thorough": [("MCJweSys", "MCJweSys_Full", 8), ("MCFormatSys", "MCFormatSys_Full", 2)]}

def jwk(**more):
    d = drv("jwk")
    return dict(drivers=d, models={"quick": [("MCJwkSys", "MCJwkSys_Quick", 3)] + CTL, "thorough": [("MCJwkSys", "MCJwkSys_Full", 8)] + CTL},
                behaviours={"quick": [("jwk", "MCJwkSys", "MCJwkSys_Sim", 160, 18)], "thorough": [("jwk", "MCJwkSys", "MCJwkSys_Sim", 4000, 18)]},
                **more)


CTL = [("MCJwkSys", "MCJwkSys_Keep", 1, "Unmixed"), ("MCJwkSys", "MCJwkSys_Careless", 1, "NothingPrivate")]


def both(a, b):
    return {t: a[t] + b[t] for t in ("quick", "thorough")}


PLAN = {
    "C01": dict(drivers=jws(), models=JWSFMT, behaviours=JWSBEH),
    "C02": dict(drivers=jws(6000), models=JWSFMT),
    "C03": dict(drivers=jws(), models=JWSSYS, behaviours=JWSBEH),
    "C04": dict(drivers=drv("jws", "jwe"), models=both(JWSSYS, JWESYS), behaviours=both(JWSBEH, JWEBEH)),
    "C05": dict(drivers=jws(), models=JWSSYS, behaviours=JWSBEH),
    "C06": dict(drivers=drv("jws", "jwe"), models=both(JWSSYS, JWESYS), behaviours=both(JWSBEH, JWEBEH)),
    "C07": dict(drivers=drv("jwe"), models=JWEFMT),
    "C08": dict(drivers=drv("jwe"), models=JWEFMT, behaviours=JWEBEH),
    "C09": dict(drivers=drv("jwe"), models=JWESYS, behaviours=JWEBEH),
    "C10": dict(drivers={"quick": [("fresh", 6, 100000, 65), ("jwe", 2, 100000, 65)],
                         "thorough": [("fresh", 6, 1000000, 400), ("jwe", 2, 1000000, 400)]},
                models=[("FreshSys", "FreshSys_Ok", 2), ("FreshSys", "FreshSys_Prng", 1, "Unpredictable"),
                        ("FreshSys", "FreshSys_Keep", 1, "Unique"), ("FreshSys", "FreshSys_Stretch", 1, "Enough"),
                        ("MCJweSys", "MCJweSys_Reuse", 1, "FreshSecrets")]),
    "C11": jwk(), "C12": jwk(), "C13": jwk(),
    "C14": dict(drivers=drv("keys"), models={"quick": [("MCKeysSys", "MCKeysSys_Quick", 3), ("MCKeysSys", "MCKeysSys_Undo", 1, "Faithful")],
                                             "thorough": [("MCKeysSys", "MCKeysSys_Full", 8), ("MCKeysSys", "MCKeysSys_Undo", 1, "Faithful")]},
                behaviours={"quick": [("keys", "MCKeysSys", "MCKeysSys_Sim", 160, 18)],
                            "thorough": [("keys", "MCKeysSys", "MCKeysSys_Sim", 4000, 18)]}),
    "C15": dict(drivers=drv("jwk"), models=[("MCJwkSys", "MCJwkSys_Quick", 3)]),
    "C16": dict(drivers=drv("codec"), models={"quick": [("CodecSys", "CodecSys_Quick", 3)], "thorough": [("CodecSys", "CodecSys_Full", 8)]}),
    "C17": dict(drivers=drv("ec"), models={"quick": [("MCEcSys", "MCEcSys_Quick", 3)], "thorough": [("MCEcSys", "MCEcSys_Full", 8)]}),
    "C18": dict(drivers=drv("prim"), models={"quick": [("MCFormatSys", "MCFormatSys_Quick", 1)], "thorough": [("MCFormatSys", "MCFormatSys_Full", 2)]}),
    "C21": dict(drivers=drv("pbk", secs=25, thorough=300), models=[("PbkSys", "PbkSys_Ok", 2), ("PbkSys", "PbkSys_Drop", 1, "OneStream"), ("PbkSys", "PbkSys_Share", 1, "OneStream")]),
    "C22": dict(drivers=drv("cli", secs=55), models={t: [("MCCliSys", "MCCliSys_" + n, w), ("MCCliSys", "MCCliSys_Export", 1, "NothingPrivate"),
                                                         ("MCCliSys", "MCCliSys_Noverify", 1, "Authentic"), ("MCCliSys", "MCCliSys_Lost", 1, "Opens")]
                                                     for t, n, w in (("quick", "Quick", 2), ("thorough", "Full", 8))},
                behaviours={"quick": [("cli", "MCCliSys", "MCCliSys_Sim", 80, 20)], "thorough": [("cli", "MCCliSys", "MCCliSys_Sim", 2000, 20)]}),
    "C19": dict(drivers=drv("jws", "jwe")),
    "C20": dict(drivers={"quick": [("src", 4, 100000, 65), ("jws", 2, 100000, 65), ("jwe", 1, 100000, 65), ("jwk", 1, 100000, 65)],
                         "thorough": [("src", 4, 1000000, 400), ("jws", 2, 1000000, 400), ("jwe", 1, 1000000, 400), ("jwk", 1, 1000000, 400)]},
                models={"quick": [("MCSrcSys", "MCSrcSys_Quick", 2), ("MCSrcSys", "MCSrcSys_Place", 1, "Current")],
                        "thorough": [("MCSrcSys", "MCSrcSys_Full", 8), ("MCSrcSys", "MCSrcSys_Place", 1, "Current")]},
                behaviours={"quick": [("src", "MCSrcSys", "MCSrcSys_Sim", 80, 20)], "thorough": [("src", "MCSrcSys", "MCSrcSys_Sim", 2000, 20)]}),
}

TRUST = (" Assumes the reference primitives (hashlib, hmac, pycryptodomex' AES/RSA/ECC) and TLC; bounded: the model by its "
         "constants, the code by the recorded calls (seeded random, adversarial and specification-generated).")
NOTES = {
    "C01": "TLC checks authenticity against a symbolic adversary on the JWS state machine and soundness of the signature formats; every recorded "
           "verify call of the real code (adversarial tokens included) must be a step of the specification." + TRUST,
    "C02": "Every token the code signs is decoded and verified by the specification's own format programs and verified by the code, and tokens "
           "produced by the specification's programs must verify in the code." + TRUST,
    "C03": "None/alg/pin/crit rules are part of the accept relation; model-checked and validated on recorded calls over pins x headers x flags." + TRUST,
    "C04": "The fitting-key relation of spec/Keys.tla decides every sign/verify/encrypt/decrypt call, with decoy keys in every position." + TRUST,
    "C05": "JSON serialization: documents by the code, by the specification and by an adversary; every entry judged as a compact token." + TRUST,
    "C06": "Histories of calls on shared objects, keys and collections; the specification's accept relation does not depend on the history, and "
           "inputs are snapshotted around every call." + TRUST,
    "C07": "Every token the code encrypts is opened by the specification's own format programs and by the code, and tokens produced by an "
           "independent sender following the specification must be decrypted." + TRUST,
    "C08": "TLC checks integrity, secrecy and freshness against a symbolic adversary; every decrypt call of the real code on altered, spliced, "
           "truncated, extended, re-headed and badly sealed tokens must be a step of the specification." + TRUST,
    "C09": "Ephemeral keys off the curve, of other curves, unreduced, malformed; the specification opens a token only if the point is on the "
           "recipient's curve, and no key may be derived otherwise." + TRUST,
    "C10": "Content keys, IVs, ephemeral keys, ECDSA nonces, paddings and salts are extracted from what the code makes in one process, in threads, "
           "in forked and separate processes, with the pseudo-random generator seeded, its state restored and the clocks stopped; the trace "
           "specification accepts no value twice and no group of values with little variety. Not a test of cryptographic quality beyond that." + TRUST,
    "C11": "Every export is compared member by member with the format programs and read in again by every route; key objects are followed through "
           "random and specification-generated histories." + TRUST,
    "C12": "Public exports, key sets, headers and copies are checked for private members and searched for private values in every encoding, after any "
           "history of loading, changing and using the key." + TRUST,
    "C13": "Equality, hash, thumbprint and add_kid judged against the key records of the specification on keys that differ in one thing or nothing." + TRUST,
    "C14": "The collection is a sequence in the specification; every addition, view and dump of random and specification-generated histories is "
           "compared with it, identities included." + TRUST,
    "C15": "Certificates written by the harness (RFC 5280), with and without the right digest." + TRUST,
    "C16": "The alphabet, the shape of an encoding and its strictness are operators of the specification, checked by TLC to be inverse and strict on all "
           "short inputs; recorded encodings, decodings and token (un)packings are judged by the same operators." + TRUST,
    "C17": "TLC proves group axioms and the Jacobian formulas' agreement with the group law on all small curves of the NIST form; every result of the "
           "code on small curves is computed by the specification in TLC, those on the standard curves by its programs of the group law and the "
           "FIPS 186 equations on big integers." + TRUST,
    "C18": "The published constructions are programs over AES, SHA-2 and HMAC blocks in spec/Formats.tla, GF(2^128) and GHASH are computed by TLC; the "
           "real functions must agree with them on every recorded input, altered ones included." + TRUST,
    "C20": "Files, certificates and pages of a small web on the loopback interface - which change, move, fail, and sit behind servers one may not "
           "trust - are state of the specification; every reading by the code must give what is there, visit the places on the way and no other. "
           "An audit hook tells of any use of the network during calls that were given their keys." + TRUST,
    "C21": "A reader is a position in a stream of octets in the specification, whose blocks are the format program of RFC 8018; readers of the same and "
           "other passphrases are read in turns, in pieces of all sizes, and crypt's hashes are put together by the specification." + TRUST,
    "C22": "The command-line tools are carried out with generated directories, pages and messages and with behaviours of the specification; what they print "
           "and write is judged by the same operators as the library's results, and every file of the directory is looked at after every call." + TRUST,
    "C19": "is_jws and the factories judged against the classification relation on valid, altered and arbitrary inputs." + TRUST,
}
