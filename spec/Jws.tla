-------------------------------- MODULE Jws ---------------------------------
(***************************************************************************)
(* What JWS signing and verification may and must do (C01 - C06).          *)
(*                                                                         *)
(* A token, as the receiver sees it:                                       *)
(*   [parts  number of dot-separated parts                                 *)
(*    b64    per part "canon", "loose" (decodable only by a tolerant       *)
(*           decoder) or "bad"                                             *)
(*    hdr    "obj" if the first part holds a JSON object, else "bad"       *)
(*    algk   "str", "null", "absent" or "other";  alg its value (or "")    *)
(*    none   alg is "none" in any letter case, or null                     *)
(*    kid    the kid, "" if absent or empty                                *)
(*    crit   a crit member is there                                        *)
(*    cty    "absent", "jwt", "text" (any other string) or "odd"           *)
(*    valid  the materials under which the signature validates by the      *)
(*           program JwsVerify(alg)                                        *)
(*    raw, text, json   names of the payload as octets, as text ("" when   *)
(*           it is not UTF-8) and as JSON value ("" when it is not JSON)   *)
(*    sigempty  the signature part is empty ]                              *)
(*                                                                         *)
(* An object: [pin, haspin, kid, haskid, typ, jwk] - the constructor's     *)
(* alg, kid and typ ("" if not given; haspin/haskid whether the attribute  *)
(* exists at all) and jwk as the sequence of the keys it brings along (its *)
(* jwk, or those that lie where its jku or x5u points to) - with its       *)
(* history:  learned, the algorithms it has met, and used, whether it has  *)
(* met anything at all.                                                    *)
(*                                                                         *)
(* A call's arguments: [keys, none, sigalg].                               *)
(***************************************************************************)
EXTENDS Keys

IsNone(s) == s \in {"none", "None", "NONE", "nOne", "noNE"}

-----------------------------------------------------------------------------
(* Verification of one compact token                                        *)
UsedKeys(o, a) == IF a.keys # <<>> THEN a.keys ELSE o.jwk
WantedKid(o, t) == IF o.haskid THEN o.kid ELSE t.kid
Candidates(o, t, a) ==
  LET ks == UsedKeys(o, a) IN { ks[i] : i \in Fitting(ks, t.alg, WantedKid(o, t), "") }

Pinned(o) == o.pin # "" /\ ~IsNone(o.pin)

\* Why a token has to be refused; the empty set means it is acceptable.
RejectBecause(o, t, a) ==
  IF t.parts # 3 \/ \E i \in DOMAIN t.b64 : t.b64[i] = "bad" THEN {"parts"}
  ELSE IF t.hdr # "obj" THEN {"header"}
  ELSE LET crit == IF t.crit THEN {"crit"} ELSE {}
           rest ==
             IF t.none \/ (t.algk = "absent" /\ a.none)
             THEN (IF ~a.none THEN {"none"} ELSE {})
                  \cup (IF Pinned(o) THEN {"pin"} ELSE {})
                  \cup (IF a.sigalg # "" /\ ~IsNone(a.sigalg) THEN {"sigalg"} ELSE {})
             ELSE IF t.algk # "str" \/ t.alg \notin JwsAlgs THEN {"alg"}
             ELSE (IF Pinned(o) /\ o.pin # t.alg THEN {"pin"} ELSE {})
                  \cup (IF a.sigalg # "" /\ a.sigalg # t.alg THEN {"sigalg"} ELSE {})
                  \cup (LET c == Candidates(o, t, a) IN
                        IF c = {} THEN {"nokey"}
                        ELSE IF \E k \in c : k.mat \in t.valid THEN {} ELSE {"sig"})
       IN crit \cup rest

\* Acceptable tokens that may be refused all the same: leniency and
\* bookkeeping that no property demands.
MayRefuse(o, t, a) ==
  \/ \E i \in DOMAIN t.b64 : t.b64[i] # "canon"
  \/ t.cty = "odd"
  \/ t.algk = "absent"
  \/ t.none /\ ~t.sigempty
  \/ ~t.none /\ o.haspin /\ ~Pinned(o)           \* an object made for 'none'
  \/ o.haskid /\ o.kid = "" /\ t.kid # ""
  \/ \E l \in o.learned : l # t.alg                \* the object settled on another alg

\* What a verifier returns for an accepted token
TextOf(t) == IF t.text # "" THEN t.text ELSE t.raw
Returns(t) ==
  CASE t.cty = "text" -> {TextOf(t)}
    [] t.cty = "odd"  -> {TextOf(t), t.json}
    [] OTHER -> {IF t.json # "" THEN t.json ELSE TextOf(t)}

\* Keys that may be reported as the one that verified
Verifiers(o, t, a) == { k.mat : k \in { c \in Candidates(o, t, a) : c.mat \in t.valid } }

-----------------------------------------------------------------------------
(* Signing: the set of allowed results <<"sig", key, alg>>,                 *)
(* <<"none">> (an unsecured token) or <<"err", class>>.                     *)
PickedAlg(o, keys) ==
  IF o.haspin THEN (IF o.pin = "" THEN "none" ELSE o.pin)
  ELSE IF Len(keys) = 1 /\ keys[1].alg # "" THEN keys[1].alg ELSE "none"

SignWith(o, keys, alg, kid) ==
  IF IsNone(alg) THEN (IF alg = "none" THEN {<<"none">>} ELSE {<<"none">>, <<"err", "">>})
  ELSE IF alg \notin JwsAlgs THEN {<<"err", "">>}
  ELSE LET ks == IF keys # <<>> THEN keys ELSE o.jwk
           f == Fitting(ks, alg, kid, "sig")
       IN IF f = {} THEN {<<"err", "nokey">>}
          ELSE IF CanSign(ks[First(f)], alg) THEN {<<"sig", ks[First(f)], alg>>}
          ELSE {<<"err", "">>}

\* An object that has been used may go on with the algorithm it has met
\* instead of its own (empty) choice; a kid it has met is of no importance.
SignResults(o, keys) ==
  LET algs == {PickedAlg(o, keys)} \cup (IF o.haspin THEN {} ELSE o.learned)
              \cup (IF ~Pinned(o) THEN o.learned ELSE {})
      kid == IF o.haskid THEN o.kid ELSE ""
  IN UNION { SignWith(o, keys, al, kid) : al \in algs }

\* The header of a compact token signed with key k (or <<>> for none) given
\* the protected headers passed.  Headers are functions from names to JSON
\* texts.
Quote(s) == "\"" \o s \o "\""
WithMember(h, n, v) == (n :> v) @@ h
SignedHeader(o, prot, alg, kid) ==
  LET h1 == WithMember(prot, "alg", Quote(alg))
      h2 == IF kid # "" THEN WithMember(h1, "kid", Quote(kid)) ELSE h1
      h3 == IF o.typ # "" THEN WithMember(h2, "typ", Quote(o.typ)) ELSE h2
  IN h3

\* one signature: token t (with its header as a function) against result r
SigOk(r, t) == CASE r[1] = "sig" -> t.algk = "str" /\ t.alg = r[3] /\ r[2].mat \in t.valid
                 [] r[1] = "none" -> t.none /\ t.sigempty
                 [] OTHER -> FALSE
SigAlg(r) == IF r[1] = "sig" THEN r[3] ELSE "none"
SigKid(r) == IF r[1] = "sig" THEN r[2].kid ELSE ""
HdrOk(o, r, prot, hdr) ==
  LET want == SignedHeader(o, prot, SigAlg(r), SigKid(r)) IN
  /\ DOMAIN want \subseteq DOMAIN hdr
  /\ \A m \in DOMAIN want : hdr[m] = want[m]
  /\ DOMAIN hdr \subseteq DOMAIN want

-----------------------------------------------------------------------------
(* JSON serialization.  A document is [ok, payload, sigs, odd] where sigs   *)
(* is a sequence of [tok, kid, haskid, jwk]: the compact token made of the  *)
(* entry, and what its merged header says; odd marks documents outside the  *)
(* RFC's syntax that a reader may refuse.                                   *)
EntryObj(s) == [ pin |-> "", haspin |-> FALSE, kid |-> s.kid, haskid |-> s.haskid,
                 typ |-> "", jwk |-> s.jwk, learned |-> {}, used |-> FALSE ]
DocRejectBecause(o, d, a) ==
  IF ~d.ok THEN {"doc"}
  ELSE IF d.sigs = <<>> THEN {"nosig"}
  ELSE UNION { RejectBecause(EntryObj(d.sigs[i]), d.sigs[i].tok, a) : i \in DOMAIN d.sigs }
       \cup (IF Pinned(o) /\ \E i \in DOMAIN d.sigs :
                  d.sigs[i].tok.algk # "str" \/ d.sigs[i].tok.alg # o.pin THEN {"pin"} ELSE {})
DocMayRefuse(o, d, a) ==
  \/ d.odd
  \/ \E i \in DOMAIN d.sigs : MayRefuse(EntryObj(d.sigs[i]), d.sigs[i].tok, a)
  \/ o.haskid \/ o.jwk # <<>>
  \/ \E l \in o.learned : \E i \in DOMAIN d.sigs : l # d.sigs[i].tok.alg
  \/ Cardinality(UNION { Returns(d.sigs[i].tok) : i \in DOMAIN d.sigs }) # 1
DocReturns(d) == UNION { Returns(d.sigs[i].tok) : i \in DOMAIN d.sigs }
=============================================================================
