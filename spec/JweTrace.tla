------------------------------ MODULE JweTrace ------------------------------
(***************************************************************************)
(* Is a recorded run of jwkest.jwe a behaviour of the specification?       *)
(* Carries the objects and what has been used up: content keys, IVs and    *)
(* ephemeral keys seen in tokens (C10).                                    *)
(***************************************************************************)
EXTENDS Jwe, TraceBase
VARIABLES i, objs, used, viol
vars == <<i, objs, used, viol>>

NewObj(e) == [ pin |-> e.pin, kid |-> e.kid, haskid |-> e.haskid, jwk |-> e.jwk, url |-> e.url, jwtkid |-> e.jwtkid, calls |-> 0 ]
\* nothing lies where the object was told to look
Bare(o, e) == e.keys = <<>> /\ o.url /\ o.jwk = <<>>
Hist(o) == IF o.calls > 0 THEN {"C06"} ELSE {}
ArgsOf(e) == [keys |-> e.keys, want |-> e.want, hascek |-> e.hascek]

PropOf == [ parts |-> {"C08"}, header |-> {"C08"}, crit |-> {"C08"}, alg |-> {"C08"}, want |-> {"C08"}, enc |-> {"C08"},
            nokey |-> {"C04", "C08"}, open |-> {"C08"}, epk |-> {"C09"} ]
Props(rs) == UNION { PropOf[r] : r \in rs }

DecryptStep(n, e) ==
  LET o == objs[e.obj] t == e.tok a == ArgsOf(e)
      r == RejectBecause(o, t, a) may == MayRefuse(o, t, a)
      ec == IF t.algk = "str" /\ t.alg \in EcAlgs THEN {"C09"} ELSE {} IN
  [ v |-> (IF e.out.kind = "ok"
           THEN If(r # {}, V(n, Props(r) \cup Hist(o), "accepted"))
             \o If(r = {} /\ e.out.pay \notin Yields(o, t, a), V(n, {"C07", "C08"} \cup Hist(o), "plaintext"))
           ELSE If(r = {} /\ ~may, V(n, {"C07", "C04"} \cup ec \cup Hist(o), "refused"))
             \o If(r = {"nokey"} /\ ~may /\ ~e.out.nokey /\ ~Bare(o, e), V(n, {"C04"}, "no-suitable-key error"))
             \o If(e.out.leak, V(n, {"C08", "C06"}, "plaintext leaked by a failing call")))
       \o If("epk" \in r /\ e.out.derived, V(n, {"C09"}, "key derived from an invalid ephemeral key"))
       \o If(~e.same, V(n, {"C06"}, "caller's objects altered")),
    o |-> [o EXCEPT !.calls = @ + 1], u |-> used ]

\* A low-level class given the key itself (form "raw"): no selection
RawDecryptStep(n, e) ==
  LET o == objs[e.obj] t == e.tok
      good == { t.opens[k].pay : k \in DOMAIN t.opens }
      bad == t.parts # 5 \/ (\E k \in DOMAIN t.b64 : t.b64[k] = "bad") \/ t.hdr # "obj" \/ good = {} IN
  [ v |-> (IF e.out.kind = "ok"
           THEN If(bad, V(n, {"C08"}, "accepted"))
             \o If(~bad /\ e.out.pay \notin good, V(n, {"C07", "C08"}, "plaintext"))
           ELSE If(~bad /\ ~t.odd /\ ~t.crit /\ t.zip # "falsy" /\ (\A k \in DOMAIN t.b64 : t.b64[k] = "canon"),
                   V(n, {"C07"}, "refused"))
             \o If(e.out.leak, V(n, {"C08", "C06"}, "plaintext leaked by a failing call")))
       \o If(~e.same, V(n, {"C06"}, "caller's objects altered")),
    o |-> [o EXCEPT !.calls = @ + 1], u |-> used ]

\* names of what must not be used twice
NewParts(e) == { x \in {e.made.cek, e.made.iv, e.made.epk} : x # "" }
Passed(e) == { x \in {e.gave.cek, e.gave.iv, e.gave.epk} : x # "" }

EncryptStep(n, e) ==
  LET o == objs[e.obj] t == e.tok
      raw == e.form = "raw"
      r == IF raw THEN <<"tok", e.keys[1]>> 
           ELSE IF e.out.kind = "tok" /\ e.gave.cek # "" THEN EncryptOwnCek(o, e.alg, e.enc, e.zip, e.keys)
           ELSE EncryptResult(o, e.alg, e.enc, e.zip, e.keys)
      k == r[2]
      form == t.parts = 5 /\ t.hdr = "obj" /\ \A x \in DOMAIN t.b64 : t.b64[x] = "canon"
      opens == \/ \E x \in DOMAIN t.opens : t.opens[x].mat = k.mat /\ t.opens[x].pay = e.msg.raw
               \/ e.gave.cek # "" /\ t.cekpay = e.msg.raw
      again == (NewParts(e) \cap used) \ Passed(e)
  IN [ v |-> (IF e.out.kind = "err"
              THEN If(e.msg.ok /\ r[1] # "err", V(n, {"C07", "C04"} \cup Hist(o), "encryption refused"))
                \o If(r = <<"err", "nokey">> /\ ~e.out.nokey /\ ~Bare(o, e), V(n, {"C04"}, "no-suitable-key error"))
              ELSE If(r[1] = "err", V(n, {"C04", "C07"}, "encrypted without a fitting key or method"))
                \o If(r[1] # "err" /\ ~form, V(n, {"C07"}, "serialization"))
                \o If(r[1] # "err" /\ form /\ ~(t.alg = e.alg /\ t.enc = e.enc /\ opens),
                      V(n, {"C07", "C04"} \cup Hist(o) \cup (IF e.alg \in EcAlgs THEN {"C09"} ELSE {}), "the right key does not open it"))
                \o If(r[1] # "err" /\ form /\ ~HeaderOk(e.base, IF raw THEN [k EXCEPT !.kid = ""] ELSE k, e.alg, e.hdr),
                      V(n, {"C07", "C06"}, "header"))
                \o If(~e.made.epkpub, V(n, {"C12"}, "private member in epk"))
                \o If(e.made.epk # "" /\ t.epk # "ok", V(n, {"C09", "C07"}, "ephemeral key is not on the curve"))
                \o If(again # {}, V(n, {"C10", "C06"}, "content key, IV or ephemeral key used before"))
                \o If(e.gave.epk # "" /\ e.made.epk # e.gave.epk, V(n, {"C07", "C12"}, "caller's ephemeral key not used"))
                \o If(e.gave.iv # "" /\ e.made.iv # e.gave.iv, V(n, {"C07"}, "caller's IV not used"))
                \o If(e.gave.cek # "" /\ e.alg # "ECDH-ES" /\ e.made.cek # "" /\ e.made.cek # e.gave.cek,
                      V(n, {"C07"}, "caller's content key not used")))
          \o If(~e.same, V(n, {"C06"}, "caller's objects altered")),
       o |-> [o EXCEPT !.calls = @ + 1],
       u |-> used \cup NewParts(e) ]

ClassifyStep(n, e) ==
  [ v |-> If(e.out.kind = "ok" /\ e.type # "either" /\ e.out.yes # (e.type = "jwe"), V(n, {"C19"}, "classification"))
       \o If(e.out.kind = "err" /\ e.type \in {"jwe", "jws"}, V(n, {"C19"}, "classification raised"))
       \o If(~e.out.nopay, V(n, {"C19"}, "classification leaves a plaintext")),
    o |-> objs[e.obj], u |-> used ]

Step(n, e) ==
  CASE e.op = "decrypt" -> IF e.form = "raw" THEN RawDecryptStep(n, e) ELSE DecryptStep(n, e)
    [] e.op = "encrypt" -> EncryptStep(n, e)
    [] e.op = "classify" -> ClassifyStep(n, e)

Init == i = 1 /\ objs = <<>> /\ used = {} /\ viol = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     CASE e.op = "reset" -> objs' = <<>> /\ UNCHANGED <<viol, used>>
       [] e.op = "new" -> objs' = (e.obj :> NewObj(e)) @@ objs /\ UNCHANGED <<viol, used>>
       [] e.op = "there" -> objs' = [objs EXCEPT ![e.obj].jwk = e.jwk] /\ UNCHANGED <<viol, used>>
       [] OTHER -> LET s == Step(i, e) IN
            /\ viol' = viol \o Lured(e, s.v) \o NetV(i, e, e.op \in {"encrypt", "decrypt"} /\ e.keys = <<>> /\ objs[e.obj].url)
            /\ objs' = [objs EXCEPT ![e.obj] = s.o]
            /\ used' = s.u
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
