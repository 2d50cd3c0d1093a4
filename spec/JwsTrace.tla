------------------------------ MODULE JwsTrace ------------------------------
(***************************************************************************)
(* Is a recorded run of jwkest.jws a behaviour of the specification?       *)
(***************************************************************************)
EXTENDS Jws, TraceBase
VARIABLES i, objs, viol
vars == <<i, objs, viol>>

TokOf(j) == [j EXCEPT !.valid = ToSet(@)]
\* JSON gives sequences for sets; rebuild what the spec's operators expect
DocOf(d) == [d EXCEPT !.sigs = [n \in DOMAIN @ |-> [@[n] EXCEPT !.tok = TokOf(@)]]]
ArgsOf(e) == [keys |-> e.keys, none |-> e.none, sigalg |-> e.sigalg]
NewObj(e) == [ pin |-> e.pin, haspin |-> e.haspin, kid |-> e.kid, haskid |-> e.haskid,
               typ |-> e.typ, jwk |-> e.jwk, url |-> e.url, learned |-> {}, used |-> FALSE ]
\* nothing lies where the object was told to look
Bare(o, e) == e.keys = <<>> /\ o.url /\ o.jwk = <<>>
Hist(o) == IF o.used THEN {"C06"} ELSE {}


PropOf == [ parts |-> {"C01"}, header |-> {"C01"}, crit |-> {"C03"}, none |-> {"C03", "C01"},
            pin |-> {"C03"}, sigalg |-> {"C03"}, alg |-> {"C03"}, nokey |-> {"C04", "C01"},
            sig |-> {"C01"}, doc |-> {"C05"}, nosig |-> {"C05"} ]
Props(rs) == UNION { PropOf[r] : r \in rs }

\* Common to both serializations: json is {"C05"} or {}
Judge(n, e, o, reasons, may, returns, keys, json) ==
  IF e.out.kind = "ok"
  THEN If(reasons # {}, V(n, Props(reasons) \cup json \cup Hist(o), "accepted"))
    \o If(reasons = {} /\ e.out.pay \notin returns, V(n, {"C01", "C16"} \cup json \cup Hist(o), "payload"))
    \o If(reasons = {} /\ e.out.key # "" /\ e.out.key \notin keys, V(n, {"C01", "C04"} \cup json, "reported key"))
  ELSE If(reasons = {} /\ ~may, V(n, {"C02", "C04"} \cup json, "refused"))
    \o If(reasons = {"nokey"} /\ ~may /\ ~e.out.nokey /\ ~Bare(o, e), V(n, {"C04"}, "no-suitable-key error"))
    \o If(e.out.leak, V(n, {"C01", "C06"} \cup json, "payload leaked by a failing call"))

SameV(n, e) == If(~e.same, V(n, {"C06"}, "caller's objects altered"))

VerifyStep(n, e) ==
  LET o == objs[e.obj] t == TokOf(e.tok) a == ArgsOf(e) r == RejectBecause(o, t, a) IN
  [ v |-> Judge(n, e, o, r, MayRefuse(o, t, a), Returns(t),
                IF t.none \/ t.algk = "absent" THEN {} ELSE Verifiers(o, t, a), {})
          \o SameV(n, e),
    o |-> [o EXCEPT !.learned = @ \cup (IF t.algk = "str" THEN {t.alg} ELSE {}),
                    !.used = TRUE] ]

VerifyJsonStep(n, e) ==
  LET o == objs[e.obj] d == DocOf(e.doc) a == ArgsOf(e) r == DocRejectBecause(o, d, a) IN
  [ v |-> Judge(n, e, o, r, DocMayRefuse(o, d, a), DocReturns(d),
                UNION { Verifiers(EntryObj(d.sigs[k]), d.sigs[k].tok, a) : k \in DOMAIN d.sigs }, {"C05"})
          \o SameV(n, e),
    o |-> [o EXCEPT !.learned = @ \cup { d.sigs[k].tok.alg : k \in DOMAIN d.sigs },
                    !.used = TRUE] ]

TokForm(e) == e.tok.parts = 3 /\ (\A k \in DOMAIN e.tok.b64 : e.tok.b64[k] = "canon")
                /\ e.tok.hdr = "obj" /\ e.tok.raw = e.msg.raw

SignStep(n, e) ==
  LET o == objs[e.obj]
      rs == SignResults(o, e.keys)
      good == { r \in rs : r[1] # "err" }
      nok == \E r \in rs : r[1] = "err"
      t == TokOf(e.tok)
  IN [ v |->
         (IF e.out.kind = "err"
          THEN IF ~e.msg.ok THEN <<>>
               ELSE If(~nok, V(n, {"C02", "C04"}, "signing refused"))
                 \o If(rs = {<<"err", "nokey">>} /\ ~e.out.nokey /\ ~Bare(o, e), V(n, {"C04"}, "no-suitable-key error"))
          ELSE If(good = {}, V(n, {"C04"}, "signed without a fitting key"))
            \o If(good # {} /\ ~(\E r \in good : SigOk(r, t)), V(n, {"C02", "C04"}, "signature or key"))
            \o If(good # {} /\ (\E r \in good : SigOk(r, t)) /\ ~(\E r \in good : SigOk(r, t) /\ HdrOk(o, r, e.prot, e.hdr)),
                  V(n, {"C02", "C06"}, "header"))
            \o If(~TokForm(e), V(n, {"C02"}, "serialization")))
         \o SameV(n, e),
       o |-> [o EXCEPT !.learned = @ \cup {PickedAlg(o, e.keys)}] ]

\* sign_json: the object's alg is the default of every protected header
\* (or, on a used object made without one, the algorithm it has met)
JsonPairAlgs(o, p) ==
  IF "alg" \in DOMAIN p.prot THEN {p.alg}
  ELSE {PickedAlg(o, <<>>)} \cup (IF Pinned(o) THEN {} ELSE o.learned)
PairObj(o, p, al) == [ pin |-> al, haspin |-> TRUE, kid |-> p.kid, haskid |-> p.haskid,
                   typ |-> "", jwk |-> <<>>, learned |-> {}, used |-> FALSE ]
SignJsonStep(n, e) ==
  LET o == objs[e.obj]
      res(k) == UNION { SignResults(PairObj(o, e.pairs[k], al), e.keys) : al \in JsonPairAlgs(o, e.pairs[k]) }
      bad == \E k \in DOMAIN e.pairs : \A r \in res(k) : r[1] = "err"
      mayerr == ~e.msg.ok \/ (~o.haspin /\ \E k \in DOMAIN e.pairs : "alg" \notin DOMAIN e.pairs[k].prot) \/ \E k \in DOMAIN e.pairs : \E r \in res(k) : r[1] = "err"
      good(k) == { r \in res(k) : r[1] # "err" }
      nokey == \E k \in DOMAIN e.pairs : res(k) = {<<"err", "nokey">>}
      s == e.sigs
      entry(k) == LET t == TokOf(s[k].tok) IN
        If(good(k) # {} /\ ~(\E r \in good(k) : SigOk(r, t) /\ HdrOk(PairObj(o, e.pairs[k], SigAlg(r)), r, e.pairs[k].prot, s[k].hdr)),
           V(n, {"C05", "C02"}, "entry signature, key or header"))
        \o If(~TokForm([tok |-> s[k].tok, msg |-> e.msg]), V(n, {"C05"}, "entry serialization"))
        \o If(s[k].unprot # e.pairs[k].unprot, V(n, {"C05"}, "unprotected header"))
  IN [ v |->
        (IF e.out.kind = "err"
         THEN If(~mayerr, V(n, {"C05"}, "sign_json refused"))
         ELSE If(bad, V(n, {"C04", "C05"}, "signed without a fitting key"))
           \o If(Len(s) # Len(e.pairs), V(n, {"C05"}, "number of signatures"))
           \o If(e.flat # (e.flatten /\ Len(e.pairs) = 1), V(n, {"C05"}, "flattened"))
           \o If(~e.syntax, V(n, {"C05"}, "syntax"))
           \o (IF Len(s) = Len(e.pairs)
               THEN FoldLeft(LAMBDA acc, k : acc \o entry(k), <<>>, [k \in DOMAIN s |-> k]) ELSE <<>>))
        \o SameV(n, e),
       o |-> o ]

\* is_jws / factory: the harness says what the input is (C19)
ClassifyStep(n, e) ==
  LET o == objs[e.obj] IN
  [ v |-> If(e.out.kind = "err" /\ e.type # "foreign", V(n, {"C19"}, "classification raised"))
       \o If(e.out.kind = "ok" /\ e.out.yes # (e.type = "jws") /\ e.type # "either",
             V(n, {"C19"}, "classification"))
       \o If(~e.out.nopay, V(n, {"C19"}, "classification leaves a payload"))
       \o SameV(n, e),
    o |-> [o EXCEPT !.used = TRUE] ]

Step(n, e) ==
  CASE e.op = "verify" -> VerifyStep(n, e)
    [] e.op = "verify_json" -> VerifyJsonStep(n, e)
    [] e.op = "sign" -> SignStep(n, e)
    [] e.op = "sign_json" -> SignJsonStep(n, e)
    [] e.op = "classify" -> ClassifyStep(n, e)

Init == i = 1 /\ objs = <<>> /\ viol = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     CASE e.op = "reset" -> objs' = <<>> /\ UNCHANGED viol
       [] e.op = "new" -> objs' = (e.obj :> NewObj(e)) @@ objs /\ UNCHANGED viol
       [] e.op = "there" -> objs' = [objs EXCEPT ![e.obj].jwk = e.jwk] /\ UNCHANGED viol
       [] OTHER -> LET s == Step(i, e) IN
            /\ viol' = viol \o Lured(e, s.v) \o NetV(i, e, e.op \in {"verify", "sign"} /\ e.keys = <<>> /\ objs[e.obj].url)
            /\ objs' = [objs EXCEPT ![e.obj] = s.o]
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
