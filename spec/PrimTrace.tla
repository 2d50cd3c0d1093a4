----------------------------- MODULE PrimTrace -----------------------------
(***************************************************************************)
(* Recorded calls of the cryptographic building blocks (C18).  `want` is   *)
(* what the programs of Formats.tla make of the same input, "fail" where   *)
(* they reject it; octet strings are named by their hexadecimal digits.    *)
(***************************************************************************)
EXTENDS TraceBase, Formats
G == INSTANCE Gf
VARIABLES i, last, viol
vars == <<i, last, viol>>

\* functions that reject inputs; the others are total
Authentic == {"cbc_decrypt", "gcm_decrypt", "content_decrypt", "unwrap", "unwrap_iv", "unwrap_pad", "verify", "trim"}
Also == ( "sign" :> {"C02"} @@ "verify" :> {"C01"} @@ "cbc_decrypt" :> {"C08"} @@ "gcm_decrypt" :> {"C08"} @@ "content_decrypt" :> {"C08"}
       @@ "unwrap" :> {"C08"} @@ "derive" :> {"C09"} @@ "oidc" :> {"C07"} )
Props(f) == {"C18"} \cup (IF f \in DOMAIN Also THEN Also[f] ELSE {})

CallV(n, e) ==
  IF e.want = "fail"
  THEN If(e.out.kind = "ok", V(n, Props(e.fn), IF e.fn \in Authentic THEN "accepts what does not authenticate" ELSE "accepts what it cannot do"))
  ELSE IF e.out.kind # "ok" THEN V(n, Props(e.fn), e.fn \o " fails")
  ELSE If(e.out.r # e.want, V(n, Props(e.fn), e.fn \o " is another function"))

\* GCM objects: a call may be refused only when it would use the last IV again
GcmV(n, e) ==
  LET again == e.obj \in DOMAIN last /\ last[e.obj] = e.iv IN
  IF e.out.kind # "ok" THEN If(~again \/ e.want = "fail", V(n, {"C18"}, "gcm_encrypt fails"))
  ELSE If(e.out.r # e.want, V(n, {"C18", "C07"}, "gcm_encrypt is another function"))
GfV(n, e) == If(e.out.kind # "ok" \/ e.out.r # G!Times(e.x, e.y), V(n, {"C18"}, "not the product in GF(2^128)"))
GhashV(n, e) == If(e.out.kind # "ok" \/ e.out.r # G!XorB(G!Ghash(e.h, e.blocks, G!Zero), e.mask), V(n, {"C18", "C07"}, "not the GCM tag"))

Verdict(n, e) ==
  CASE e.op = "call" -> CallV(n, e)
    [] e.op = "gcm" -> GcmV(n, e)
    [] e.op = "gf" -> GfV(n, e)
    [] e.op = "ghash" -> GhashV(n, e)
    [] OTHER -> <<>>

Init == i = 1 /\ last = <<>> /\ viol = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     /\ viol' = viol \o Verdict(i, e)
     /\ last' = IF e.op = "gcm" THEN (e.obj :> e.iv) @@ last ELSE IF e.op = "reset" THEN <<>> ELSE last
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
