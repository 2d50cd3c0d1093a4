-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Keys and which of them fit an algorithm (C04).                          *)
(*                                                                         *)
(* A key is a record                                                       *)
(*   [mat, kty, crv, kid, use, alg, priv, size]                            *)
(* where mat names the key material (two keys with the same material have  *)
(* the same mat), kty is the type as the library shows it, "" stands for   *)
(* an attribute that is not set, priv says whether the private part is     *)
(* there, and size is the length of an RSA modulus in bits (0 otherwise).  *)
(***************************************************************************)
EXTENDS Formats, FiniteSets, SequencesExt

JweAll == JweAlgs
Known == JwsAlgs \cup JweAll
\* the key type an algorithm works with
KtyOf(alg) ==
  IF alg \in JwsAlgs
  THEN CASE Family[alg] = "HS" -> "oct" [] Family[alg] = "ES" -> "EC" [] OTHER -> "RSA"
  ELSE CASE alg \in RsaAlgs -> "RSA" [] alg \in KwAlgs -> "oct" [] OTHER -> "EC"
\* spellings of a key type that count as the same
Spelled == ( "RSA" :> {"RSA", "rsa"} @@ "EC" :> {"EC", "ec"} @@ "oct" :> {"oct", "OCT"} )

Suits(k, alg) ==
  /\ k.kty \in Spelled[KtyOf(alg)]
  /\ (alg \in JwsAlgs /\ Family[alg] = "ES") => k.crv = EcCurve[alg]
Fits(k, alg, kid, use) ==
  /\ Suits(k, alg)
  /\ k.alg \in {"", alg}
  /\ kid = "" \/ k.kid = kid
  /\ use = "" \/ k.use \in {"", use}

\* positions of the keys that fit, in the caller's order
Fitting(ks, alg, kid, use) == { i \in DOMAIN ks : Fits(ks[i], alg, kid, use) }
First(s) == CHOOSE x \in s : \A y \in s : x <= y

\* what a key must have to produce a signature / open a message
\* RSASSA: RFC 8017 sections 9.2 (DigestInfo + 11 octets) and 9.1.1
MinModulus(alg) ==
  LET h == Bits[alg] \div 8 IN
  IF Family[alg] = "RS" THEN 8 * (h + 19 + 11) - 7 ELSE 8 * (2 * h + 2) - 7 + 1
CanSign(k, alg) ==
  k.priv /\ (Family[alg] \in {"RS", "PS"} => k.size >= MinModulus(alg))
=============================================================================
