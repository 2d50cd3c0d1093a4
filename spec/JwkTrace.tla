----------------------------- MODULE JwkTrace -----------------------------
(***************************************************************************)
(* Recorded histories of key objects against spec/Jwk.tla (C11-C13, C15).  *)
(***************************************************************************)
EXTENDS TraceBase, Jwk
VARIABLES i, objs, hashes, viol
vars == <<i, objs, hashes, viol>>

Bad(out) == out.kind # "ok"
Attrs == {"kty", "crv", "pub", "priv", "full", "kid", "use", "alg", "x5c", "x5t", "x5u"}
Ident(k) == <<k.kty, k.crv, k.pub, k.kid, k.use, k.alg, IF k.kty = "RSA" THEN <<k.x5c, k.x5t, k.x5u>> ELSE <<>>>>

ImportV(n, e) ==
  CASE e.form = "ok" ->
         If(Bad(e.out), V(n, {"C11"}, "a good key is refused"))
      \o (IF Bad(e.out) THEN <<>> ELSE
             If(\E m \in {"kty", "crv", "pub"} : e.out.key[m] # e.desc[m], V(n, {"C11", "C02", "C07"}, "not the same material"))
          \o If(\E m \in {"priv", "full"} : e.out.key[m] # e.desc[m], V(n, {"C11"}, "private part lost or made up"))
          \o If(\E m \in {"kid", "use", "alg"} : e.out.key[m] # e.desc[m], V(n, {"C11"}, "attribute changed"))
          \o If(\E m \in X5 : e.out.key[m] # e.desc[m], V(n, {"C13", "C11"}, "certificate attribute changed"))
          \o If(~e.out.native, V(n, {"C11"}, "native key and material differ")))
    [] e.form = "bad" -> If(~Bad(e.out), V(n, {"C11"}, "malformed material accepted"))
    [] OTHER -> <<>>

\* an export read in again
AgainV(n, e) ==
  LET k == objs[e.from] want == IF e.private \/ k.kty = "oct" THEN k ELSE Public(k) IN
  IF Bad(e.out) THEN V(n, {"C11"}, "an export is refused")
  ELSE If(\E m \in {"kty", "crv", "pub", "priv", "full", "kid", "use", "alg"} : e.out.key[m] # want[m] \/ ~e.out.native, V(n, {"C11"}, "not the key that was exported"))

ExportV(n, e) ==
  LET k == objs[e.obj] IN
  IF Bad(e.out) THEN V(n, {"C11", "C12"}, "no export")
  ELSE If(e.mat # k.pub, V(n, {"harness"}, "forms of another key"))
    \o If(~ExportOk(k, e.private, e.out.doc, e.forms), V(n, {"C11"}, "export is not the key's JWK"))
    \o If(~e.private /\ k.kty # "oct" /\ \E m \in PrivateOf[k.kty] : m \in DOMAIN e.out.doc, V(n, {"C12"}, "private member"))
    \o If(~e.private /\ k.kty # "oct" /\ e.out.leaks # <<>>, V(n, {"C12"}, "private value"))

\* what a public document may say about a key (its header form)
Publics(n, e) ==
  IF Bad(e.out) THEN V(n, {"C12"}, "no public export")
  ELSE If(\E d \in DOMAIN e.out.docs : e.out.docs[d].kty \in {"RSA", "EC"} /\ \E m \in PrivateOf[e.out.docs[d].kty] : m \in DOMAIN e.out.docs[d],
          V(n, {"C12"}, "private member"))
    \o If(e.out.leaks # <<>>, V(n, {"C12"}, "private value"))
    \o If(Len(e.objs) # Len(e.out.docs) \/ \E d \in DOMAIN e.objs : e.objs[d] # "" /\ ~ExportOk(objs[e.objs[d]], FALSE, e.out.docs[d], e.forms[d]),
          V(n, {"C11", "C12", "C14"}, "not the public JWK"))

CopyV(n, e) ==
  LET k == objs[e.obj] IN
  IF Bad(e.out) THEN V(n, {"C12"}, "no public copy")
  ELSE If(e.out.key.priv \/ e.out.key.full \/ e.out.leaks # <<>>, V(n, {"C12"}, "private value"))
    \o If(~SameKey(e.out.key, k) \/ ~e.out.native, V(n, {"C12"}, "not a public copy of the key"))

EqV(n, e) ==
  LET want == IF e.b = "" THEN FALSE ELSE SameKey(objs[e.a], objs[e.b]) IN
  If(e.out.kind # "ok" \/ e.out.eq # want \/ e.out.ne # ~want, V(n, {"C13"}, IF want THEN "equal keys differ" ELSE "different keys are equal"))
HashV(n, e) ==
  LET id == Ident(objs[e.obj]) IN
  IF e.out.kind # "ok" THEN V(n, {"C13"}, "no hash")
  ELSE If(id \in DOMAIN hashes /\ hashes[id] # e.out.h, V(n, {"C13"}, "equal keys have different hashes"))
TpV(n, e) ==
  LET k == objs[e.obj] ok == IF k.kty = "EC" THEN {e.want.rfc, e.want.nokty} ELSE {e.want.rfc} IN
  If(e.out.kind # "ok" \/ e.out.tp \notin ok, V(n, {"C13"}, "wrong thumbprint"))
KidV(n, e) ==
  LET k == objs[e.obj] ok == IF k.kty = "EC" THEN {e.want.rfc, e.want.nokty} ELSE {e.want.rfc} IN
  If(e.out.kind # "ok" \/ e.out.kid \notin ok, V(n, {"C13"}, "kid is not the thumbprint"))
CrossV(n, e) ==
  LET want == CrossOk(e.what, objs[e.a], objs[e.b]) IN
  If((e.out.kind = "ok") # want, V(n, {"C11", "C12"}, IF want THEN "keys do not work together" ELSE "different keys work together"))

(* C15: a certificate in a JWK.  pub: what the certificate's key is ("" if  *)
(* it has no RSA key), x5t: how the digest relates to the certificate       *)
X5V(n, e) ==
  LET good == e.pub # "" /\ e.x5t \in {"none", "match"}
      bad == e.pub = "" \/ e.x5t \in {"other", "malformed"}  \* "odd": padded or otherwise unusual spellings of the right digest
  IN If(good /\ Bad(e.out), V(n, {"C15"}, "a good certificate is refused"))
  \o If(bad /\ ~Bad(e.out), V(n, {"C15"}, IF e.pub = "" THEN "no certificate of an RSA key" ELSE "x5t does not match"))
  \o If(~Bad(e.out) /\ e.pub # "" /\ (e.out.key.pub # e.pub \/ e.out.key.priv \/ ~e.out.native), V(n, {"C15"}, "not the certificate's key"))
  \o If(~Bad(e.out) /\ \E a \in DOMAIN e.at : e.out.key[a] # e.at[a], V(n, {"C15"}, "not the attributes of the JWK"))

Verdict(n, e) ==
  (CASE e.op = "import" -> ImportV(n, e)
    [] e.op = "again" -> AgainV(n, e)
    [] e.op = "export" -> ExportV(n, e)
    [] e.op = "public" -> Publics(n, e)
    [] e.op = "copy" -> CopyV(n, e)
    [] e.op = "eq" -> EqV(n, e)
    [] e.op = "hash" -> HashV(n, e)
    [] e.op = "tp" -> TpV(n, e)
    [] e.op = "addkid" -> KidV(n, e)
    [] e.op = "cross" -> CrossV(n, e)
    [] e.op = "x5" -> X5V(n, e)
    [] OTHER -> <<>>)
  \o If("same" \in DOMAIN e /\ ~e.same, V(n, {"C13", "C11", "C06"}, "the key's exported form changed"))

\* how the objects change
Objs(e) ==
  CASE e.op = "reset" -> <<>>
    [] e.op = "import" /\ e.form = "ok" -> (e.obj :> e.desc) @@ objs
    [] e.op = "again" -> (e.obj :> [(IF e.private \/ objs[e.from].kty = "oct" THEN objs[e.from] ELSE Public(objs[e.from]))
                                     EXCEPT !.x5c = "", !.x5t = "", !.x5u = ""]) @@ objs
    [] e.op = "keep" -> (e.doc :> objs[e.from]) @@ objs
    [] e.op = "copy" -> (e.new :> Public(objs[e.obj])) @@ objs
    [] e.op = "set" -> [objs EXCEPT ![e.obj][e.attr] = e.val]
    [] e.op = "addkid" /\ e.out.kind = "ok" -> [objs EXCEPT ![e.obj].kid = e.out.kid]
    [] e.op = "load" -> [objs EXCEPT ![e.obj] = [@ EXCEPT !.pub = e.pub, !.priv = e.priv, !.full = e.full, !.crv = e.crv]]
    [] OTHER -> objs
Hashes(e) ==
  IF e.op = "reset" THEN <<>>
  ELSE IF e.op = "hash" /\ e.out.kind = "ok" THEN (Ident(objs[e.obj]) :> e.out.h) @@ hashes ELSE hashes

Init == i = 1 /\ objs = <<>> /\ hashes = <<>> /\ viol = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN viol' = viol \o Verdict(i, e) \o NetV(i, e, FALSE) /\ objs' = Objs(e) /\ hashes' = Hashes(e)
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
