------------------------------- MODULE JwsSys -------------------------------
(***************************************************************************)
(* Signers, verifiers and an adversary (C01 - C06).                        *)
(*                                                                         *)
(* Honest parties sign payloads with JWS objects; the adversary puts       *)
(* tokens together from everything seen so far, from its own keys and from *)
(* the public keys used as HMAC secrets; JWS objects, new or used, verify  *)
(* compact tokens and JSON documents with lists of keys.  The outcome of a *)
(* call is any that spec/Jws.tla allows.                                   *)
(*                                                                         *)
(* TLC checks the invariants below on all behaviours within the bounds,    *)
(* and generates behaviours (hist) that the harness carries out with the   *)
(* real code.                                                              *)
(***************************************************************************)
EXTENDS Jws
CONSTANTS
  Objects,       \* constructor arguments: [pin, haspin, kid, haskid]
  KeyLists,      \* sequence of the callers' key lists (sequences of keys)
  Headers,       \* headers the adversary uses: [alg, algk, kid, crit]
  Payloads,
  MaxObj, MaxTok, MaxCalls,
  Honest         \* materials whose private part only honest parties hold

VARIABLES objs, toks, signed, last, hist
vars == <<objs, toks, signed, last, hist>>

\* Behaviours are generated with Pick overridden to choose one element
Pick(from) == from

(* Signatures are terms: <<mat, alg, header, payload>> as made by whoever   *)
(* holds mat; "pub" materials are public keys taken as HMAC secrets.        *)
Junk == <<"junk", "", "", "">>
Empty == <<"", "", "", "">>
Token(h, p, s, n) == [h |-> h, pay |-> p, sig |-> s, parts |-> n]

\* The token record of spec/Jws.tla
Rec(t) ==
  [ parts |-> t.parts, b64 |-> [k \in 1..t.parts |-> "canon"], hdr |-> "obj",
    algk |-> t.h.algk, alg |-> t.h.alg, none |-> t.h.algk = "null" \/ (t.h.algk = "str" /\ IsNone(t.h.alg)),
    kid |-> t.h.kid, crit |-> t.h.crit, cty |-> "absent",
    valid |-> IF t.sig[1] \notin {"", "junk"} /\ t.sig[2] = t.h.alg /\ t.sig[3] = t.h /\ t.sig[4] = t.pay
              THEN {t.sig[1]} ELSE {},
    raw |-> "raw " \o t.pay, text |-> "text " \o t.pay, json |-> "", sigempty |-> t.sig = Empty ]

Init == /\ objs = <<>> /\ toks = <<>> /\ signed = {} /\ hist = <<>>
        /\ last = [kind |-> "none"]

Log(a) == /\ hist' = Append(hist, a)
Room == Len(hist) < MaxCalls

NewObj ==
  /\ Len(objs) < MaxObj
  /\ \E c \in Pick(Objects) :
       /\ objs' = Append(objs, [ pin |-> c.pin, haspin |-> c.haspin, kid |-> c.kid, haskid |-> c.haskid,
                                 typ |-> "", jwk |-> <<>>, learned |-> {}, used |-> FALSE ])
       /\ Log([a |-> "new", obj |-> Len(objs) + 1, cfg |-> c])
  /\ last' = [kind |-> "none"]
  /\ UNCHANGED <<toks, signed>>

\* An honest party signs with the keys of a list
Sign ==
  /\ Len(toks) < MaxTok
  /\ \E i \in Pick(DOMAIN objs), l \in Pick(DOMAIN KeyLists), p \in Pick(Payloads) :
       \E r \in Pick(SignResults(objs[i], KeyLists[l])) :
         LET o == objs[i] IN
         /\ IF r[1] = "sig"
            THEN LET h == [alg |-> r[3], algk |-> "str", kid |-> r[2].kid, crit |-> FALSE] IN
                 /\ toks' = Append(toks, Token(h, p, <<r[2].mat, r[3], h, p>>, 3))
                 /\ signed' = signed \cup {<<r[2].mat, r[3], h, p>>}
            ELSE IF r[1] = "none"
            THEN LET h == [alg |-> "none", algk |-> "str", kid |-> "", crit |-> FALSE] IN
                 /\ toks' = Append(toks, Token(h, p, Empty, 3))
                 /\ UNCHANGED signed
            ELSE UNCHANGED <<toks, signed>>
         /\ last' = [kind |-> "sign", o |-> o, r |-> r, list |-> l, keys |-> KeyLists[l]]
         /\ objs' = [objs EXCEPT ![i].learned = @ \cup {PickedAlg(o, KeyLists[l])}]
         /\ Log([a |-> "sign", obj |-> i, list |-> l, pay |-> p, ok |-> r[1] # "err",
                 tok |-> IF r[1] = "err" THEN 0 ELSE Len(toks) + 1])

\* What the adversary can sign: with its own keys anything, with public
\* keys as HMAC secrets, with honest keys nothing
Sigs(h, p) ==
  {Junk, Empty} \cup signed
  \cup { <<m, h.alg, h, p>> : m \in {"ADV_RSA", "ADV_EC", "ADV_OCT", "PUB"} }
Forge ==
  /\ Len(toks) < MaxTok
  /\ \E h \in Pick(Headers), p \in Pick(Payloads) : \E s \in Pick(Sigs(h, p)) :
       /\ toks' = Append(toks, Token(h, p, s, 3))
       /\ Log([a |-> "forge", h |-> h, pay |-> p, sig |-> s, tok |-> Len(toks) + 1])
  /\ last' = [kind |-> "none"]
  /\ UNCHANGED <<objs, signed>>
\* ... or takes a part away from a token or adds one
Cut ==
  /\ Len(toks) < MaxTok
  /\ \E k \in Pick(DOMAIN toks), n \in Pick({2, 4, 5}) :
       /\ toks[k].parts = 3
       /\ toks' = Append(toks, [toks[k] EXCEPT !.parts = n])
       /\ Log([a |-> "cut", from |-> k, parts |-> n, tok |-> Len(toks) + 1])
  /\ last' = [kind |-> "none"]
  /\ UNCHANGED <<objs, signed>>

Outcomes(reasons, may, returns) ==
  (IF reasons = {} THEN { <<"ok", p>> : p \in returns } ELSE {})
  \cup (IF reasons # {} \/ may THEN {<<"err", "">>} ELSE {})

Verify ==
  \E i \in Pick(DOMAIN objs), k \in Pick(DOMAIN toks), l \in Pick(DOMAIN KeyLists), none \in Pick(BOOLEAN),
     sa \in Pick({"", "RS256", "HS256", "none"}) :
    LET o == objs[i] t == Rec(toks[k]) a == [keys |-> KeyLists[l], none |-> none, sigalg |-> sa] IN
    \E r \in Pick(Outcomes(RejectBecause(o, t, a), MayRefuse(o, t, a), Returns(t))) :
      /\ last' = [kind |-> "verify", o |-> o, tok |-> toks[k], a |-> a, r |-> r]
      /\ objs' = [objs EXCEPT ![i].learned = @ \cup (IF t.algk = "str" THEN {t.alg} ELSE {}),
                              ![i].used = TRUE]
      /\ Log([a |-> "verify", obj |-> i, tok |-> k, list |-> l, none |-> none, sigalg |-> sa, ok |-> r[1] = "ok"])
      /\ UNCHANGED <<toks, signed>>

\* A JSON document made of the headers and signatures of one or two tokens
\* and the payload of the first
Doc(ks) == [ ok |-> TRUE, odd |-> FALSE,
             sigs |-> [ n \in DOMAIN ks |->
               [ tok |-> Rec([toks[ks[n]] EXCEPT !.pay = toks[ks[1]].pay]), kid |-> toks[ks[n]].h.kid,
                 haskid |-> toks[ks[n]].h.kid # "", jwk |-> <<>> ] ] ]
VerifyDoc ==
  \E i \in Pick(DOMAIN objs), l \in Pick(DOMAIN KeyLists), none \in Pick(BOOLEAN),
     ks \in Pick({<<>>} \cup { <<x>> : x \in DOMAIN toks } \cup { <<x, y>> : x, y \in DOMAIN toks }) :
    /\ \A n \in DOMAIN ks : toks[ks[n]].parts = 3
    /\ LET o == objs[i] d == Doc(ks) a == [keys |-> KeyLists[l], none |-> none, sigalg |-> ""] IN
       \E r \in Pick(Outcomes(DocRejectBecause(o, d, a), DocMayRefuse(o, d, a), DocReturns(d))) :
         /\ last' = [kind |-> "doc", o |-> o, toks |-> [n \in DOMAIN ks |-> [toks[ks[n]] EXCEPT !.pay = toks[ks[1]].pay]],
                     a |-> a, r |-> r]
         /\ objs' = [objs EXCEPT ![i].learned = @ \cup { d.sigs[n].tok.alg : n \in DOMAIN d.sigs },
                                 ![i].used = TRUE]
         /\ Log([a |-> "doc", obj |-> i, toks |-> ks, list |-> l, none |-> none, ok |-> r[1] = "ok"])
         /\ UNCHANGED <<toks, signed>>

Next == Room /\ (NewObj \/ Sign \/ Forge \/ Cut \/ Verify \/ VerifyDoc)
Spec == Init /\ [][Next]_vars
View == <<objs, toks, signed, last>>

-----------------------------------------------------------------------------
Accepted == last.kind = "verify" /\ last.r[1] = "ok"
MatsOf(keys) == { keys[k].mat : k \in DOMAIN keys }

\* C01: an accepted signature under an honest key was made by its holder for
\* exactly this header and payload; otherwise it was made with a key the
\* caller supplied.
Authentic(t, a) ==
  IF t.h.algk = "str" /\ ~IsNone(t.h.alg)
  THEN /\ t.sig[1] \in MatsOf(a.keys)
       /\ t.sig[1] \in Honest => <<t.sig[1], t.h.alg, t.h, t.pay>> \in signed
  ELSE a.none
Authenticity == Accepted => Authentic(last.tok, last.a)
PayloadOfToken == Accepted => last.r[2] \in {"text " \o last.tok.pay}
\* C03
NoneOnlyIfAllowed ==
  Accepted /\ (last.tok.h.algk # "str" \/ IsNone(last.tok.h.alg))
  => last.a.none /\ ~Pinned(last.o) /\ last.a.sigalg \in {"", "none"}
PinsHold ==
  Accepted => /\ Pinned(last.o) => last.tok.h.alg = last.o.pin
              /\ last.a.sigalg \notin {"", "none"} => last.tok.h.alg = last.a.sigalg
              /\ ~last.tok.h.crit
              /\ last.tok.h.algk = "str" => last.tok.h.alg \in JwsAlgs \/ IsNone(last.tok.h.alg)
\* C04
KidHolds ==
  Accepted /\ last.tok.h.algk = "str" /\ ~IsNone(last.tok.h.alg) =>
    \E k \in DOMAIN last.a.keys :
      LET key == last.a.keys[k] IN
      /\ key.mat = last.tok.sig[1]
      /\ (last.o.haskid /\ last.o.kid # "") => key.kid = last.o.kid
      /\ (~last.o.haskid /\ last.tok.h.kid # "") => key.kid = last.tok.h.kid
      /\ key.alg \in {"", last.tok.h.alg}
FirstFitting ==
  last.kind = "sign" /\ last.r[1] = "sig" =>
    \E k \in DOMAIN last.keys :
      /\ last.keys[k] = last.r[2] /\ Fits(last.r[2], last.r[3], "", "sig")
      /\ \A x \in 1..k-1 : ~Fits(last.keys[x], last.r[3], IF last.o.haskid THEN last.o.kid ELSE "", "sig")
\* C02: what has been signed is accepted by a new object with the key
RoundTrip ==
  \A k \in DOMAIN toks : toks[k].parts = 3 /\ toks[k].sig \in signed /\ toks[k].sig[3] = toks[k].h /\ toks[k].sig[4] = toks[k].pay =>
    \A l \in DOMAIN KeyLists :
      (\E x \in DOMAIN KeyLists[l] : /\ KeyLists[l][x].mat = toks[k].sig[1]
                                     /\ KeyLists[l][x].kid = toks[k].h.kid \/ toks[k].h.kid = ""
                                     /\ KeyLists[l][x].alg \in {"", toks[k].h.alg})
      => LET o == [ pin |-> "", haspin |-> FALSE, kid |-> "", haskid |-> FALSE, typ |-> "", jwk |-> <<>>,
                    learned |-> {}, used |-> FALSE ]
             a == [keys |-> KeyLists[l], none |-> FALSE, sigalg |-> ""]
         IN RejectBecause(o, Rec(toks[k]), a) = {} /\ ~MayRefuse(o, Rec(toks[k]), a)
\* C05: every signature of an accepted document
DocAuthentic ==
  last.kind = "doc" /\ last.r[1] = "ok" =>
    /\ last.toks # <<>>
    /\ \A n \in DOMAIN last.toks : Authentic(last.toks[n], last.a) /\ ~last.toks[n].h.crit
                                   /\ Pinned(last.o) => last.toks[n].h.alg = last.o.pin
\* C06: a used object accepts nothing a new one with the same arguments would not
HistoryFree ==
  Accepted => LET new == [last.o EXCEPT !.learned = {}, !.used = FALSE] IN
              RejectBecause(new, Rec(last.tok), last.a) = {}
=============================================================================
