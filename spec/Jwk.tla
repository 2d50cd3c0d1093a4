-------------------------------- MODULE Jwk --------------------------------
(***************************************************************************)
(* Key objects (C11 - C13, C15).                                           *)
(*                                                                         *)
(* A key object is a record                                                *)
(*   [kty, crv, pub, priv, full, kid, use, alg, x5c, x5t, x5u]             *)
(* pub names the public material (the secret of a symmetric key), priv     *)
(* says whether the private part is held, full whether the primes of an    *)
(* RSA key came with it; the rest are attributes, "" when not set.         *)
(***************************************************************************)
EXTENDS Formats, FiniteSets

Common(k) == {"kty"} \cup { m \in {"kid", "use", "alg"} : k[m] # "" }
PublicOf == ( "RSA" :> {"n", "e"} @@ "EC" :> {"crv", "x", "y"} @@ "oct" :> {"k"} )
PrivateOf == ( "RSA" :> {"d", "p", "q", "dp", "dq", "qi"} @@ "EC" :> {"d"} @@ "oct" :> {} )
X5 == {"x5c", "x5t", "x5u"}

\* the members an export has to have, and those it may have
Required(k, private) ==
  Common(k) \cup PublicOf[k.kty]
  \cup (IF private /\ k.priv THEN CASE k.kty = "RSA" -> IF k.full THEN {"d", "p", "q"} ELSE {"d"}
                                    [] k.kty = "EC" -> {"d"} [] OTHER -> {}
        ELSE {})
Allowed(k, private) ==
  Required(k, private) \cup { m \in X5 : k[m] # "" }
  \cup (IF private /\ k.priv THEN PrivateOf[k.kty] ELSE {})

\* C11, C12: doc maps members to texts; forms maps the members of the
\* material to what the format programs prescribe
Value(k, m, forms) == IF m \in {"kty", "crv", "kid", "use", "alg"} \cup X5 THEN k[m] ELSE forms[m]
ExportOk(k, private, doc, forms) ==
  /\ Required(k, private) \subseteq DOMAIN doc
  /\ DOMAIN doc \subseteq Allowed(k, private)
  /\ \A m \in DOMAIN doc : doc[m] = Value(k, m, forms)

\* C13
SameKey(a, b) ==
  /\ \A m \in {"kty", "crv", "pub", "kid", "use", "alg"} : a[m] = b[m]
  /\ a.kty = "RSA" => \A m \in X5 : a[m] = b[m]
\* keys whose hashes have to agree
SameThumb(a, b) == a.kty = b.kty /\ a.crv = b.crv /\ a.pub = b.pub

Public(k) == [k EXCEPT !.priv = FALSE, !.full = FALSE]

\* what signing/encrypting with a and verifying/decrypting with b must give
Interchange(a, b) == SameThumb(a, b)
\* ... and which of two keys has to hold a private part, by the operation
NeedsPrivate(op) == IF op = "sign" THEN {"maker"} ELSE {"taker"}
CrossOk(op, a, b) ==
  /\ a.kty # "oct" => IF op = "sign" THEN a.priv ELSE b.priv
  /\ Interchange(a, b)
=============================================================================
