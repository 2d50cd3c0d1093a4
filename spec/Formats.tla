------------------------------ MODULE Formats ------------------------------
(***************************************************************************)
(* The wire formats and constructions pyjwkest must implement, written as  *)
(* straight-line programs over uninterpreted primitives.                   *)
(*                                                                         *)
(* A program is a sequence of steps  <<result, operator, arg, ...>>.  An   *)
(* argument is the name of an earlier result or of an input, or a literal: *)
(* "#17" is the integer 17 and "'abc" the octets of the text abc.          *)
(*                                                                         *)
(* The same programs are used three times: FormatSys.tla executes them     *)
(* symbolically and checks the properties of the formats (round trip,      *)
(* every altered part noticed); the harness executes them with real        *)
(* primitives as an independent sender; and as an independent receiver,    *)
(* which is the abstraction function from real tokens to model tokens.     *)
(*                                                                         *)
(* Sources: RFC 7515 (JWS), 7516 (JWE), 7518 (algorithms), 7638            *)
(* (thumbprints), 3394 (key wrap), SP 800-38D (GCM), SP 800-56A (KDF),     *)
(* FIPS 186-4 (ECDSA), OpenID Connect Core (symmetric keys, left hash).    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

S(r, f, a) == << <<r, f>> \o a >>
N(n)       == "#" \o ToString(n)
T(s)       == "'" \o s

RECURSIVE Cat(_)
Cat(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Cat(Tail(ps))
Upto(n, F(_)) == [i \in 1..n |-> F(i)]

------------------------------------------------------------------------------
(* JWS                                                                      *)
JwsAlgs == { "HS256", "HS384", "HS512", "RS256", "RS384", "RS512",
             "ES256", "ES384", "ES512", "PS256", "PS384", "PS512" }
Bits == [ HS256 |-> 256, HS384 |-> 384, HS512 |-> 512,
          RS256 |-> 256, RS384 |-> 384, RS512 |-> 512,
          ES256 |-> 256, ES384 |-> 384, ES512 |-> 512,
          PS256 |-> 256, PS384 |-> 384, PS512 |-> 512 ]
Family == [ HS256 |-> "HS", HS384 |-> "HS", HS512 |-> "HS",
            RS256 |-> "RS", RS384 |-> "RS", RS512 |-> "RS",
            ES256 |-> "ES", ES384 |-> "ES", ES512 |-> "ES",
            PS256 |-> "PS", PS384 |-> "PS", PS512 |-> "PS" ]
\* octets of one ECDSA integer, and the curve each algorithm is defined for
EcWidth  == [ ES256 |-> 32, ES384 |-> 48, ES512 |-> 66 ]
EcCurve  == [ ES256 |-> "P-256", ES384 |-> "P-384", ES512 |-> "P-521" ]
CrvWidth == ( "P-256" :> 32 @@ "P-384" :> 48 @@ "P-521" :> 66 )

RawSign(alg) ==
  LET b == N(Bits[alg]) IN
  CASE Family[alg] = "HS" -> S("sig", "hmac", <<b, "key", "si">>)
    [] Family[alg] = "RS" -> S("sig", "rsa15sign", <<b, "key", "si">>)
    [] Family[alg] = "PS" -> S("sig", "psssign", <<b, "key", "si">>)
    [] Family[alg] = "ES" -> S("rs", "ecdsa", <<b, "key", "si">>)
                          \o S("r", "fst", <<"rs">>) \o S("s", "snd", <<"rs">>)
                          \o S("r8", "i2osp", <<"r", N(EcWidth[alg])>>)
                          \o S("s8", "i2osp", <<"s", N(EcWidth[alg])>>)
                          \o S("sig", "cat", <<"r8", "s8">>)

RawVerify(alg) ==
  LET b == N(Bits[alg]) IN
  CASE Family[alg] = "HS" -> S("mac", "hmac", <<b, "key", "si">>)
                          \o S("ok", "eq", <<"mac", "sig">>)
    [] Family[alg] = "RS" -> S("ok", "rsa15ok", <<b, "key", "si", "sig">>)
    [] Family[alg] = "PS" -> S("ok", "pssok", <<b, "key", "si", "sig">>)
    [] Family[alg] = "ES" -> S("len", "lenis", <<"sig", N(2 * EcWidth[alg])>>)
                          \o S("r8", "take", <<"sig", N(EcWidth[alg])>>)
                          \o S("s8", "drop", <<"sig", N(EcWidth[alg])>>)
                          \o S("r", "os2ip", <<"r8">>) \o S("s", "os2ip", <<"s8">>)
                          \o S("ok", "ecdsaok", <<b, "key", "si", "r", "s">>)

JwsSign(alg) ==
     S("h64", "b64u", <<"hdr">>) \o S("p64", "b64u", <<"pl">>)
  \o S("si", "cat", <<"h64", T("."), "p64">>)
  \o RawSign(alg)
  \o S("s64", "b64u", <<"sig">>)

JwsVerify(alg) ==
     S("si", "cat", <<"h64", T("."), "p64">>)
  \o S("sig", "b64d", <<"s64">>)
  \o RawVerify(alg)
  \o S("pl", "b64d", <<"p64">>)

------------------------------------------------------------------------------
(* Content encryption                                                       *)
CbcEncs == { "A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512" }
GcmEncs == { "A128GCM", "A192GCM", "A256GCM" }
Encs == CbcEncs \cup GcmEncs
CekLen == ( "A128CBC-HS256" :> 32 @@ "A192CBC-HS384" :> 48 @@ "A256CBC-HS512" :> 64
         @@ "A128GCM" :> 16 @@ "A192GCM" :> 24 @@ "A256GCM" :> 32 )
CbcHash == ( "A128CBC-HS256" :> 256 @@ "A192CBC-HS384" :> 384 @@ "A256CBC-HS512" :> 512 )
IvLen(enc) == IF enc \in CbcEncs THEN 16 ELSE 12
TagLen(enc) == IF enc \in CbcEncs THEN CekLen[enc] \div 2 ELSE 16

CbcMac(enc) ==
     S("al", "be64bits", <<"aad">>)
  \o S("mi", "cat", <<"aad", "iv", "ct", "al">>)
  \o S("mac", "hmac", <<N(CbcHash[enc]), "mk", "mi">>)
CbcKeys(enc) ==
     S("lk", "lenis", <<"cek", N(CekLen[enc])>>)
  \o S("liv", "lenis", <<"iv", "#16">>)
  \o S("mk", "take", <<"cek", N(CekLen[enc] \div 2)>>)
  \o S("ek0", "drop", <<"cek", N(CekLen[enc] \div 2)>>)
CbcEncrypt(enc) ==
     CbcKeys(enc)
  \o S("padded", "pkcs7", <<"pt">>)
  \o S("ct", "cbcenc", <<"ek0", "iv", "padded">>)
  \o CbcMac(enc)
  \o S("tag", "take", <<"mac", N(CekLen[enc] \div 2)>>)
CbcDecrypt(enc) ==
     CbcKeys(enc) \o CbcMac(enc)
  \o S("want", "take", <<"mac", N(CekLen[enc] \div 2)>>)
  \o S("ok", "eq", <<"want", "tag">>)
  \o S("padded", "cbcdec", <<"ek0", "iv", "ct">>)
  \o S("pt", "unpkcs7", <<"padded">>)

GcmMac ==
     S("zero", "rep", <<"#0", "#16">>)
  \o S("hk", "ecb", <<"cek", "zero">>)
  \o S("aadp", "pad16", <<"aad">>) \o S("ctp", "pad16", <<"ct">>)
  \o S("la", "be64bits", <<"aad">>) \o S("lc", "be64bits", <<"ct">>)
  \o S("gi", "cat", <<"aadp", "ctp", "la", "lc">>)
  \o S("gs", "ghash", <<"hk", "gi">>)
  \o S("one", "be32", <<"#1">>) \o S("j0", "cat", <<"iv", "one">>)
  \o S("ej", "ecb", <<"cek", "j0">>)
GcmCtr == S("two", "be32", <<"#2">>) \o S("c0", "cat", <<"iv", "two">>)
GcmLens(enc) ==
     S("lk", "lenis", <<"cek", N(CekLen[enc])>>)
  \o S("liv", "lenis", <<"iv", "#12">>)
GcmEncrypt(enc) ==
     GcmLens(enc) \o GcmCtr
  \o S("ct", "ctr", <<"cek", "c0", "pt">>)
  \o GcmMac
  \o S("tag", "xor", <<"gs", "ej">>)
GcmDecrypt(enc) ==
     GcmLens(enc) \o GcmMac
  \o S("want", "xor", <<"gs", "ej">>)
  \o S("ok", "eq", <<"want", "tag">>)
  \o GcmCtr
  \o S("pt", "ctr", <<"cek", "c0", "ct">>)

ContentEncrypt(enc) == IF enc \in CbcEncs THEN CbcEncrypt(enc) ELSE GcmEncrypt(enc)
ContentDecrypt(enc) == IF enc \in CbcEncs THEN CbcDecrypt(enc) ELSE GcmDecrypt(enc)

------------------------------------------------------------------------------
(* AES key wrap, RFC 3394 section 2.2, in the indexed form: n blocks, 6n    *)
(* steps.  Input "kek" and "p" (octets), output "c"; and back.              *)
KwName(b, t) == b \o ToString(t)
KwR(i, j)    == "r" \o ToString(i) \o "_" \o ToString(j)   \* block i after round j
KwStep(n, t) ==
  LET i == ((t - 1) % n) + 1
      j == (t - 1) \div n
  IN   S(KwName("x", t), "cat8", <<KwName("a", t - 1), KwR(i, j)>>)
    \o S(KwName("b", t), "ecb", <<"kek", KwName("x", t)>>)
    \o S(KwName("m", t), "blk", <<KwName("b", t), "#0">>)
    \o S(KwName("n", t), "be64", <<N(t)>>)
    \o S(KwName("a", t), "xor", <<KwName("m", t), KwName("n", t)>>)
    \o S(KwR(i, j + 1), "blk", <<KwName("b", t), "#1">>)
KwRounds(n) ==
     Cat([i \in 1..n |-> S(KwR(i, 0), "blk", <<"p", N(i - 1)>>)])
  \o Cat([t \in 1..(6 * n) |-> KwStep(n, t)])
  \o S("c", "cat8", <<KwName("a", 6 * n)>> \o [i \in 1..n |-> KwR(i, 6)])
KeyWrap(n) ==
     S("a0", "rep", <<"#166", "#8">>)
  \o S("lp", "lenis", <<"p", N(8 * n)>>)
  \o KwRounds(n)
KuStep(n, u) ==
  LET t == 6 * n - u + 1
      i == ((t - 1) % n) + 1
      j == (t - 1) \div n
  IN   S(KwName("n", t), "be64", <<N(t)>>)
    \o S(KwName("m", t), "xor", <<KwName("a", t), KwName("n", t)>>)
    \o S(KwName("x", t), "cat8", <<KwName("m", t), KwR(i, j + 1)>>)
    \o S(KwName("b", t), "ecbdec", <<"kek", KwName("x", t)>>)
    \o S(KwName("a", t - 1), "blk", <<KwName("b", t), "#0">>)
    \o S(KwR(i, j), "blk", <<KwName("b", t), "#1">>)
KuRounds(n) ==
     S("lc", "lenis", <<"c", N(8 * n + 8)>>)
  \o S(KwName("a", 6 * n), "blk", <<"c", "#0">>)
  \o Cat([i \in 1..n |-> S(KwR(i, 6), "blk", <<"c", N(i)>>)])
  \o Cat([u \in 1..(6 * n) |-> KuStep(n, u)])
  \o S("p", "cat8", [i \in 1..n |-> KwR(i, 0)])
KeyUnwrap(n) ==
     S("iv0", "rep", <<"#166", "#8">>)
  \o KuRounds(n)
  \o S("kwok", "eq", <<"iv0", "a0">>)

(* ... with padding, RFC 5649: m octets "p0" of any number m > 0.  A wrapped *)
(* key of n blocks is one of m octets for at most one m in 8n-7..8n.         *)
Blocks(m) == (m + 7) \div 8
Aiv(m) == S("v1", "rep", <<"#166", "#1">>) \o S("v2", "rep", <<"#89", "#1">>)
       \o S("v3", "be32", <<N(m)>>) \o S("aiv", "cat", <<"v1", "v2", "v2", "v1", "v3">>)
KeyWrapPad(m) ==
  LET n == Blocks(m) IN
     Aiv(m) \o S("a0", "id", <<"aiv">>)
  \o S("lp", "lenis", <<"p0", N(m)>>)
  \o S("p", "padz", <<"p0", N(8 * n)>>)
  \o IF n = 1 THEN S("x1", "cat8", <<"a0", "p">>) \o S("c", "ecb", <<"kek", "x1">>) ELSE KwRounds(n)
KeyUnwrapPad(m) ==
  LET n == Blocks(m) IN
     Aiv(m)
  \o (IF n = 1 THEN S("lc", "lenis", <<"c", "#16">>) \o S("x1", "ecbdec", <<"kek", "c">>)
                  \o S("a0", "blk", <<"x1", "#0">>) \o S("p", "blk", <<"x1", "#1">>)
      ELSE KuRounds(n))
  \o S("kwok", "eq", <<"aiv", "a0">>)
  \o S("p0", "unpadz", <<"p", N(m)>>)

------------------------------------------------------------------------------
(* PBKDF2 with HMAC, RFC 8018 section 5.2: block i is t after `first` and    *)
(* iterations - 1 times `step`, with u and t carried over.                   *)
Pbk == [ first |-> S("ib", "be32", <<"i">>) \o S("si", "cat", <<"salt", "ib">>)
                \o S("u", "hmac", <<"bits", "pass", "si">>) \o S("t", "id", <<"u">>),
         step  |-> S("u", "hmac", <<"bits", "pass", "u">>) \o S("t", "xor", <<"t", "u">>) ]

------------------------------------------------------------------------------
(* Concat KDF (SHA-256) with the OtherInfo of RFC 7518 section 4.6.2        *)
Kdf(algid, bits) ==
  LET rounds == (bits + 255) \div 256
      D(j) == "d" \o ToString(j)
  IN   S("l1", "be32len", <<algid>>) \o S("l2", "be32len", <<"apu">>)
    \o S("l3", "be32len", <<"apv">>) \o S("sp", "be32", <<N(bits)>>)
    \o S("oi", "cat", <<"l1", algid, "l2", "apu", "l3", "apv", "sp">>)
    \o Cat([j \in 1..rounds |->
              S("j" \o ToString(j), "be32", <<N(j)>>)
           \o S("i" \o ToString(j), "cat", <<"j" \o ToString(j), "z", "oi">>)
           \o S(D(j), "hash", <<"#256", "i" \o ToString(j)>>)])
    \o S("ds", "cat", [j \in 1..rounds |-> D(j)])
    \o S("dk", "take", <<"ds", N(bits \div 8)>>)

\* The bare KDF function: algid, apu, apv and z are inputs
ConcatKdf(bits) == Kdf("algid", bits)

------------------------------------------------------------------------------
(* JWE key management.  Inputs: "key" (recipient's public key for the       *)
(* sender, private or secret for the receiver), "cek", "epriv", "epub",     *)
(* "apu", "apv".  Outputs "ek" and, for direct agreement, "cek".            *)
RsaAlgs == { "RSA1_5", "RSA-OAEP", "RSA-OAEP-256" }
KwAlgs  == { "A128KW", "A192KW", "A256KW" }
EcKwAlgs == { "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW" }
EcAlgs  == { "ECDH-ES" } \cup EcKwAlgs
JweAlgs == RsaAlgs \cup KwAlgs \cup EcAlgs
KekLen == ( "A128KW" :> 16 @@ "A192KW" :> 24 @@ "A256KW" :> 32
         @@ "ECDH-ES+A128KW" :> 16 @@ "ECDH-ES+A192KW" :> 24 @@ "ECDH-ES+A256KW" :> 32 )
RsaEnc == ( "RSA1_5" :> "rsa15enc" @@ "RSA-OAEP" :> "oaep1enc" @@ "RSA-OAEP-256" :> "oaep256enc" )
RsaDec == ( "RSA1_5" :> "rsa15dec" @@ "RSA-OAEP" :> "oaep1dec" @@ "RSA-OAEP-256" :> "oaep256dec" )

\* A shared secret becomes a key encryption key by truncating its SHA-2
\* (OpenID Connect Core 10.2); JWE_SYM ("raw") uses it as it is.
Kek(alg, raw) ==
  IF raw THEN S("lkek", "lenis", <<"key", N(KekLen[alg])>>) \o S("kek", "id", <<"key">>)
  ELSE S("hkek", "hash", <<"#256", "key">>) \o S("kek", "take", <<"hkek", N(KekLen[alg])>>)

\* ... with the SHA-2 that is long enough, for any use of a shared secret
OidcLen == ( "A128KW" :> 16 @@ "A192KW" :> 24 @@ "A256KW" :> 32 @@ "HS256" :> 32 @@ "HS384" :> 48 @@ "HS512" :> 64 )
OidcKey(alg) ==
  LET l == OidcLen[alg] h == IF l <= 32 THEN 256 ELSE IF l <= 48 THEN 384 ELSE 512 IN
  S("hk", "hash", <<N(h), "key">>) \o S("out", "take", <<"hk", N(l)>>)

KeyEncrypt(alg, enc, raw) ==
  CASE alg \in RsaAlgs -> S("ek", RsaEnc[alg], <<"key", "cek">>)
    [] alg \in KwAlgs  -> Kek(alg, raw) \o S("p", "id", <<"cek">>)
                       \o KeyWrap(CekLen[enc] \div 8) \o S("ek", "id", <<"c">>)
    [] alg = "ECDH-ES" -> S("z", "ecdh", <<"epriv", "key">>)
                       \o Kdf(T(enc), 8 * CekLen[enc])
                       \o S("cek", "id", <<"dk">>) \o S("ek", "cat", <<>>)
    [] alg \in EcKwAlgs -> S("z", "ecdh", <<"epriv", "key">>)
                       \o Kdf(T(alg), 8 * KekLen[alg])
                       \o S("kek", "id", <<"dk">>) \o S("p", "id", <<"cek">>)
                       \o KeyWrap(CekLen[enc] \div 8) \o S("ek", "id", <<"c">>)
KeyDecrypt(alg, enc, raw) ==
  CASE alg \in RsaAlgs -> S("cek", RsaDec[alg], <<"key", "ek">>)
    [] alg \in KwAlgs  -> Kek(alg, raw) \o S("c", "id", <<"ek">>)
                       \o KeyUnwrap(CekLen[enc] \div 8) \o S("cek", "id", <<"p">>)
    [] alg = "ECDH-ES" -> S("lek", "lenis", <<"ek", "#0">>)
                       \o S("z", "ecdh", <<"key", "epub">>)
                       \o Kdf(T(enc), 8 * CekLen[enc])
                       \o S("cek", "id", <<"dk">>)
    [] alg \in EcKwAlgs -> S("z", "ecdh", <<"key", "epub">>)
                       \o Kdf(T(alg), 8 * KekLen[alg])
                       \o S("kek", "id", <<"dk">>) \o S("c", "id", <<"ek">>)
                       \o KeyUnwrap(CekLen[enc] \div 8) \o S("cek", "id", <<"p">>)

JweEncrypt(alg, enc, zip, raw) ==
     S("pt", IF zip THEN "deflate" ELSE "id", <<"msg">>)
  \o S("h64", "b64u", <<"hdr">>)
  \o KeyEncrypt(alg, enc, raw)
  \o S("aad", "id", <<"h64">>)
  \o ContentEncrypt(enc)
  \o S("e64", "b64u", <<"ek">>) \o S("i64", "b64u", <<"iv">>)
  \o S("c64", "b64u", <<"ct">>) \o S("t64", "b64u", <<"tag">>)
JweDecrypt(alg, enc, zip, raw) ==
     S("ek", "b64d", <<"e64">>) \o S("iv", "b64d", <<"i64">>)
  \o S("ct", "b64d", <<"c64">>) \o S("tag", "b64d", <<"t64">>)
  \o KeyDecrypt(alg, enc, raw)
  \o S("aad", "id", <<"h64">>)
  \o ContentDecrypt(enc)
  \o S("msg", IF zip THEN "inflate" ELSE "id", <<"pt">>)

------------------------------------------------------------------------------
(* JWK members (RFC 7518 section 6) and thumbprints (RFC 7638)              *)
RsaMember(x) == S("v", "i2ospmin", <<x>>) \o S("out", "b64u", <<"v">>)
EcMember(crv, x) == S("v", "i2osp", <<x, N(CrvWidth[crv])>>) \o S("out", "b64u", <<"v">>)
OctMember == S("out", "b64u", <<"k">>)
TpRsa(bits) ==
     S("nv", "i2ospmin", <<"n">>) \o S("n64", "b64u", <<"nv">>)
  \o S("ev", "i2ospmin", <<"e">>) \o S("e64", "b64u", <<"ev">>)
  \o S("js", "cat", <<T("{\"e\":\""), "e64", T("\",\"kty\":\"RSA\",\"n\":\""), "n64", T("\"}")>>)
  \o S("tp", "hash", <<N(bits), "js">>)
TpEc(crv, bits) ==
     S("xv", "i2osp", <<"x", N(CrvWidth[crv])>>) \o S("x64", "b64u", <<"xv">>)
  \o S("yv", "i2osp", <<"y", N(CrvWidth[crv])>>) \o S("y64", "b64u", <<"yv">>)
  \o S("js", "cat", <<T("{\"crv\":\"" \o crv \o "\",\"kty\":\"EC\",\"x\":\""), "x64",
                      T("\",\"y\":\""), "y64", T("\"}")>>)
  \o S("tp", "hash", <<N(bits), "js">>)
\* the known deviation of this library (known_findings.txt): kty is left out
TpEcNoKty(crv, bits) ==
     S("xv", "i2osp", <<"x", N(CrvWidth[crv])>>) \o S("x64", "b64u", <<"xv">>)
  \o S("yv", "i2osp", <<"y", N(CrvWidth[crv])>>) \o S("y64", "b64u", <<"yv">>)
  \o S("js", "cat", <<T("{\"crv\":\"" \o crv \o "\",\"x\":\""), "x64",
                      T("\",\"y\":\""), "y64", T("\"}")>>)
  \o S("tp", "hash", <<N(bits), "js">>)
TpOct(bits) ==
     S("k64", "b64u", <<"k">>)
  \o S("js", "cat", <<T("{\"k\":\""), "k64", T("\",\"kty\":\"oct\"}")>>)
  \o S("tp", "hash", <<N(bits), "js">>)

\* at_hash / c_hash of OpenID Connect: the left half of the hash
LeftHash(bits) ==
     S("hv", "hash", <<N(bits), "x">>)
  \o S("lh", "take", <<"hv", N(bits \div 16)>>) \o S("out", "b64u", <<"lh">>)

------------------------------------------------------------------------------
(* All programs, by name, for the harness                                   *)
AllPrograms ==
  LET JS == [ a \in JwsAlgs |-> JwsSign(a) ]
      JV == [ a \in JwsAlgs |-> JwsVerify(a) ]
      Name(a, e, z, r) == a \o "|" \o e \o "|" \o (IF z THEN "DEF" ELSE "")
                            \o "|" \o (IF r THEN "raw" ELSE "")
      JE == { <<Name(a, e, z, r), JweEncrypt(a, e, z, r), JweDecrypt(a, e, z, r)>> :
                a \in JweAlgs, e \in Encs, z \in BOOLEAN, r \in {FALSE} }
            \cup
            { <<Name(a, e, z, r), JweEncrypt(a, e, z, r), JweDecrypt(a, e, z, r)>> :
                a \in KwAlgs, e \in Encs, z \in BOOLEAN, r \in {TRUE} }
  IN [ jws_sign   |-> JS,
       jws_verify |-> JV,
       jwe        |-> JE,
       content    |-> [ e \in Encs |-> [ enc |-> ContentEncrypt(e), dec |-> ContentDecrypt(e) ] ],
       kw         |-> { <<ToString(n), KeyWrap(n), KeyUnwrap(n)>> : n \in (2..9) \cup {12, 16, 45} },
       kwpad      |-> { <<ToString(m), KeyWrapPad(m), KeyUnwrapPad(m)>> : m \in (1..41) \cup {64, 127, 128, 255, 256, 257, 264} },
       pbk        |-> Pbk,
       raw_sign   |-> [ a \in JwsAlgs |-> RawSign(a) ],
       raw_verify |-> [ a \in JwsAlgs |-> RawVerify(a) ],
       oidc_key   |-> [ a \in DOMAIN OidcLen |-> OidcKey(a) ],
       kdf        |-> { <<ToString(8 * b), ConcatKdf(8 * b)>> : b \in {1, 8, 16, 24, 31, 32, 33, 48, 64, 65, 96, 8160, 8224} },
       rsa_member |-> RsaMember("x"),
       ec_member  |-> [ c \in DOMAIN CrvWidth |-> EcMember(c, "x") ],
       oct_member |-> OctMember,
       tp_rsa     |-> { <<ToString(b), TpRsa(b)>> : b \in {256, 384, 512} },
       tp_ec      |-> { <<c \o "|" \o ToString(b), TpEc(c, b)>> : c \in DOMAIN CrvWidth, b \in {256, 384, 512} },
       tp_ec_nokty |-> { <<c \o "|" \o ToString(b), TpEcNoKty(c, b)>> : c \in DOMAIN CrvWidth, b \in {256, 384, 512} },
       tp_oct     |-> { <<ToString(b), TpOct(b)>> : b \in {256, 384, 512} },
       left_hash  |-> { <<ToString(b), LeftHash(b)>> : b \in {256, 384, 512} } ]
=============================================================================
