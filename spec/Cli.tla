--------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command-line tools (C22): what they take from where, and what they  *)
(* have to print or write.                                                 *)
(*                                                                         *)
(* Places - files and pages - hold [kind, keys]: kind "pem" (an RSA key),  *)
(* "cert" (a certificate of one), "jwk", "jwks" or anything else; keys the *)
(* keys as records of Keys.tla.                                            *)
(* Options a: from letters to a place ("" not given); k holds the key      *)
(* given in clear as a sequence of none or one.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
JS == INSTANCE Jws
JE == INSTANCE Jwe

Empty == [kind |-> "none", keys |-> <<>>]
At(site, p) == IF p \in DOMAIN site THEN site[p] ELSE Empty
Holds(site, p, kinds) == p # "" => At(site, p).kind \in kinds

-----------------------------------------------------------------------------
(* jwkutil takes all the keys it is given, in this order                    *)
UtilGood(site, a) == /\ Holds(site, a.r, {"pem", "cert"}) /\ Holds(site, a.j, {"jwk"})
                     /\ Holds(site, a.J, {"jwks"}) /\ Holds(site, a.u, {"jwks"})
UtilKeys(site, a) ==
  (IF a.r = "" \/ At(site, a.r).keys = <<>> THEN <<>> ELSE <<[At(site, a.r).keys[1] EXCEPT !.kid = a.kid]>>)
  \o a.k \o At(site, a.j).keys \o At(site, a.J).keys \o At(site, a.u).keys

(* jwenc and jwdecrypt take the keys of the first of these                  *)
EncOpt(a) == IF a.J # "" THEN "J" ELSE IF a.j # "" THEN "j" ELSE IF a.X # "" THEN "X" ELSE IF a.x # "" THEN "x" ELSE IF a.r # "" THEN "r" ELSE ""
EncTakes(o) == CASE o \in {"J", "j"} -> {"jwks"} [] o = "X" -> {"cert"} [] OTHER -> {"pem", "cert"}
EncPlace(a) == LET o == EncOpt(a) IN IF o = "" THEN "" ELSE a[o]
EncGood(site, a) == EncOpt(a) # "" /\ At(site, EncPlace(a)).kind \in EncTakes(EncOpt(a))
EncKeys(site, a) == At(site, EncPlace(a)).keys

-----------------------------------------------------------------------------
(* The library's objects that the tools use                                 *)
SignObj(alg, typ) == [ pin |-> alg, haspin |-> TRUE, kid |-> "", haskid |-> FALSE, typ |-> typ, jwk |-> <<>>, learned |-> {}, used |-> FALSE ]
VerifyObj == [ pin |-> "", haspin |-> FALSE, kid |-> "", haskid |-> FALSE, typ |-> "", jwk |-> <<>>, learned |-> {}, used |-> FALSE ]
VerifyArgs(ks) == [ keys |-> ks, none |-> FALSE, sigalg |-> "" ]
EncObj(alg) == [ pin |-> alg, kid |-> "", haskid |-> FALSE, jwk |-> <<>>, jwtkid |-> "" ]
DecArgs(ks) == [ keys |-> ks, want |-> "", hascek |-> FALSE ]

Signing(ks, alg, typ) == JS!SignResults(SignObj(alg, typ), ks)
SignedRight(ks, alg, typ, t, hdr) ==
  \E r \in Signing(ks, alg, typ) : r[1] # "err" /\ JS!SigOk(r, t) /\ JS!HdrOk(SignObj(alg, typ), r, <<>>, hdr)
Encrypting(ks, alg, enc) == JE!EncryptResult(EncObj(alg), alg, enc, "", ks)
VerifyBars(ks, t) == JS!RejectBecause(VerifyObj, t, VerifyArgs(ks))
VerifyMay(ks, t) == JS!MayRefuse(VerifyObj, t, VerifyArgs(ks))
DecryptBars(ks, t) == JE!RejectBecause(EncObj(""), t, DecArgs(ks))
DecryptMay(ks, t) == JE!MayRefuse(EncObj(""), t, DecArgs(ks))
Decrypted(ks, t) == JE!Yields(EncObj(""), t, DecArgs(ks))

-----------------------------------------------------------------------------
(* What the makers of keys leave behind                                     *)
Public(k) == [k EXCEPT !.priv = FALSE, !.kid = "", !.use = "", !.alg = ""]
Made(name) == { name \o ".key", name \o ".pub", name \o ".jwk" }
Created(k, name) == (name \o ".key" :> [kind |-> "pem", keys |-> <<k>>])
                    @@ (name \o ".pub" :> [kind |-> "pem", keys |-> <<Public(k)>>])
                    @@ (name \o ".jwk" :> [kind |-> "jwk", keys |-> <<Public(k)>>])
ExportGood(site, p) == At(site, p).kind \in {"pem", "cert"}
Exported(site, p, name) == (name \o ".jwk" :> [kind |-> "jwks", keys |-> <<Public(At(site, p).keys[1])>>])
=============================================================================
