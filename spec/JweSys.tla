------------------------------- MODULE JweSys -------------------------------
(***************************************************************************)
(* Senders, recipients and an adversary (C04, C06 - C10).                  *)
(*                                                                         *)
(* Honest parties encrypt payloads with JWE objects for the first fitting  *)
(* key of a list; the adversary seals tokens of its own with content keys  *)
(* it knows and any public key, also with ephemeral keys off the curve,    *)
(* and takes tokens apart and puts them together again.  Recipients        *)
(* decrypt with lists of keys.  The outcome of a call is any that          *)
(* spec/Jwe.tla allows.                                                    *)
(***************************************************************************)
EXTENDS Jwe
CONSTANTS
  Objects,       \* constructor arguments: [alg, enc, zip, kid, haskid]
  KeyLists,      \* sequence of key lists
  Headers,       \* headers the adversary uses: [alg, enc, kid, crit, zip]
  Mats,          \* the recipients: material -> [kty, crv]
  Payloads,
  MaxObj, MaxTok, MaxCalls,
  Honest,        \* materials whose secret part only honest parties hold
  Reuse          \* fault: a sender that may use a content key again

VARIABLES objs, toks, seals, made, last, hist
vars == <<objs, toks, seals, made, last, hist>>

Pick(from) == from

(* Terms.  A content key is <<"cek", n>>, drawn by an honest sender,       *)
(* <<"ca">>, drawn by the adversary, or <<"dh", mat, epk>>.  An ephemeral  *)
(* key is <<owner, curve, n>>; owner "off" stands for a point off the      *)
(* curve, chosen such that whoever uses it ends up with a guessable secret.*)
NoEpk == <<"none", "", 0>>
NoEk == <<"none">>
Junk == <<"junk">>
Wrap(alg, mat, epk, cek) == <<"wrap", alg, mat, epk, cek>>
Ct(cek, iv, pay) == <<"ct", cek, iv, pay>>
Tag(cek, iv, h, ct) == <<"tag", cek, iv, h, ct>>
Dh(mat, epk) == <<"dh", mat, epk>>
Token(h, ek, iv, ct, tag, n) == [h |-> h, ek |-> ek, iv |-> iv, ct |-> ct, tag |-> tag, parts |-> n]
Direct(alg) == alg = "ECDH-ES"

\* The content key a token gives with a material
CekWith(t, m) ==
  IF t.h.alg \in EcAlgs /\ (t.h.epk[1] \in {"none", "off"} \/ t.h.epk[2] # Mats[m].crv) THEN <<"nothing">>
  ELSE IF Mats[m].kty # KtyOf(t.h.alg) THEN <<"nothing">>
  ELSE IF Direct(t.h.alg) THEN IF t.ek = NoEk THEN Dh(m, t.h.epk) ELSE <<"nothing">>
  ELSE IF t.ek[1] = "wrap" /\ t.ek[2] = t.h.alg /\ t.ek[3] = m /\ t.ek[4] = t.h.epk THEN t.ek[5]
  ELSE <<"nothing">>
Authenticates(t, cek) ==
  /\ cek # <<"nothing">> /\ t.ct[1] = "ct" /\ t.ct[2] = cek /\ t.ct[3] = t.iv
  /\ t.tag = Tag(cek, t.iv, t.h, t.ct)
OpeningMats(t) == { m \in DOMAIN Mats : t.h.alg \in JweAlgs /\ t.h.enc \in Encs /\ t.parts = 5 /\ Authenticates(t, CekWith(t, m)) }

RECURSIVE Listed(_)
Listed(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Listed(s \ {x})
\* The token record of spec/Jwe.tla
Rec(t) ==
  [ parts |-> t.parts, b64 |-> [k \in 1..t.parts |-> "canon"], hdr |-> "obj", algk |-> "str", alg |-> t.h.alg,
    enck |-> "str", enc |-> t.h.enc, zip |-> IF t.h.zip = "DEF" THEN "DEF" ELSE "absent", kid |-> t.h.kid, crit |-> t.h.crit,
    epk |-> IF t.h.epk[1] = "none" THEN "absent" ELSE IF t.h.epk[1] = "off" THEN "bad" ELSE "ok",
    epkcrv |-> t.h.epk[2],
    opens |-> LET ms == Listed(OpeningMats(t)) IN [k \in DOMAIN ms |-> [mat |-> ms[k], pay |-> t.ct[4]]],
    cekpay |-> "", odd |-> FALSE ]

Init == objs = <<>> /\ toks = <<>> /\ seals = {} /\ made = <<>> /\ hist = <<>> /\ last = [kind |-> "none"]
Log(a) == hist' = Append(hist, a)
Room == Len(hist) < MaxCalls

NewObj ==
  /\ Len(objs) < MaxObj
  /\ \E c \in Pick(Objects) :
       /\ objs' = Append(objs, [ pin |-> c.alg, alg |-> c.alg, enc |-> c.enc, zip |-> c.zip, kid |-> c.kid, haskid |-> c.haskid,
                                 jwk |-> <<>>, jwtkid |-> "" ])
       /\ Log([a |-> "new", obj |-> Len(objs) + 1, cfg |-> c])
  /\ last' = [kind |-> "none"]
  /\ UNCHANGED <<toks, seals, made>>

(* An honest party encrypts; what has to be fresh gets a new number         *)
Fresh == { Len(made) + 1 } \cup (IF Reuse /\ made # <<>> THEN {Len(made)} ELSE {})
Encrypt ==
  /\ Len(toks) < MaxTok
  /\ \E i \in Pick(DOMAIN objs), l \in Pick(DOMAIN KeyLists), p \in Pick(Payloads), n \in Pick(Fresh) :
       LET o == objs[i] r == EncryptResult(o, o.alg, o.enc, o.zip, KeyLists[l]) IN
       /\ IF r[1] = "tok"
          THEN LET k == r[2]
                   epk == IF o.alg \in EcAlgs THEN <<"honest", k.crv, n>> ELSE NoEpk
                   h == [alg |-> o.alg, enc |-> o.enc, kid |-> k.kid, crit |-> FALSE, zip |-> o.zip, epk |-> epk]
                   cek == IF Direct(o.alg) THEN Dh(k.mat, epk) ELSE <<"cek", n>>
                   ek == IF Direct(o.alg) THEN NoEk ELSE Wrap(o.alg, k.mat, epk, cek)
                   ct == Ct(cek, n, p)
               IN /\ toks' = Append(toks, Token(h, ek, n, ct, Tag(cek, n, h, ct), 5))
                  /\ seals' = seals \cup {<<cek, n, h, p>>}
                  /\ made' = Append(made, [cek |-> cek, iv |-> n, epk |-> epk, to |-> k.mat])
          ELSE UNCHANGED <<toks, seals, made>>
       /\ last' = [kind |-> "encrypt", o |-> o, r |-> r, keys |-> KeyLists[l]]
       /\ Log([a |-> "encrypt", obj |-> i, list |-> l, pay |-> p, tok |-> IF r[1] = "tok" THEN Len(toks) + 1 ELSE 0])
  /\ UNCHANGED objs

(* What the adversary can know *)
Knowledge == {<<"ca">>}
         \cup { toks[k].ek[5] : k \in { x \in DOMAIN toks : toks[x].ek[1] = "wrap" /\ toks[x].ek[3] \notin Honest } }
         \cup { Dh(toks[k].ek[3], toks[k].h.epk) : k \in { x \in DOMAIN toks : toks[x].ek[1] = "wrap" /\ toks[x].ek[3] \notin Honest } }
CanWrapFor(m) == m \notin Honest \/ Mats[m].kty # "oct"
EpksFor(alg, m) == IF alg \in EcAlgs THEN { <<"adv", c, 0>> : c \in {"P-256", "P-384"} } \cup {<<"off", Mats[m].crv, 0>>, NoEpk} ELSE {NoEpk}
Seal ==
  /\ Len(toks) < MaxTok
  /\ \E b \in Pick(Headers), m \in Pick(DOMAIN Mats), p \in Pick(Payloads), c \in Pick(Knowledge) : \E e \in Pick(EpksFor(b.alg, m)) :
       LET h == [alg |-> b.alg, enc |-> b.enc, kid |-> b.kid, crit |-> b.crit, zip |-> b.zip, epk |-> e]
           cek == IF Direct(b.alg) THEN Dh(m, e) ELSE c
           ek == IF Direct(b.alg) THEN NoEk ELSE IF CanWrapFor(m) THEN Wrap(b.alg, m, e, cek) ELSE Junk
           ct == Ct(cek, 0, p)
       IN /\ toks' = Append(toks, Token(h, ek, 0, ct, Tag(cek, 0, h, ct), 5))
          /\ seals' = seals \cup {<<cek, 0, h, p>>}
          /\ Log([a |-> "seal", h |-> b, mat |-> m, pay |-> p, epk |-> e, cek |-> cek, junk |-> ek = Junk, tok |-> Len(toks) + 1])
  /\ last' = [kind |-> "none"]
  /\ UNCHANGED <<objs, made>>

(* ... puts a part of one token into another, or drops or adds a part       *)
Splice ==
  /\ Len(toks) < MaxTok
  /\ \E x, y \in Pick(DOMAIN toks), part \in Pick({"h", "ek", "iv", "ct", "tag"}) :
       /\ x # y /\ toks[x].parts = 5 /\ toks[y].parts = 5
       /\ toks' = Append(toks, [toks[x] EXCEPT ![part] = toks[y][part]])
       /\ Log([a |-> "splice", from |-> x, with |-> y, part |-> part, tok |-> Len(toks) + 1])
  /\ last' = [kind |-> "none"]
  /\ UNCHANGED <<objs, seals, made>>
Cut ==
  /\ Len(toks) < MaxTok
  /\ \E x \in Pick(DOMAIN toks), n \in Pick({3, 4, 6}) :
       /\ toks[x].parts = 5
       /\ toks' = Append(toks, [toks[x] EXCEPT !.parts = n])
       /\ Log([a |-> "cut", from |-> x, parts |-> n, tok |-> Len(toks) + 1])
  /\ last' = [kind |-> "none"]
  /\ UNCHANGED <<objs, seals, made>>

Decrypt ==
  \E i \in Pick(DOMAIN objs), k \in Pick(DOMAIN toks), l \in Pick(DOMAIN KeyLists), w \in Pick({"", "RSA-OAEP"}) :
    LET o == objs[i] t == Rec(toks[k]) a == [keys |-> KeyLists[l], want |-> w, hascek |-> FALSE]
        rs == RejectBecause(o, t, a) IN
    \E r \in Pick((IF rs = {} THEN { <<"ok", p>> : p \in Yields(o, t, a) } ELSE {})
                  \cup (IF rs # {} \/ MayRefuse(o, t, a) THEN {<<"err", "">>} ELSE {})) :
      /\ last' = [kind |-> "decrypt", o |-> o, tok |-> toks[k], a |-> a, r |-> r]
      /\ Log([a |-> "decrypt", obj |-> i, tok |-> k, list |-> l, want |-> w, ok |-> r[1] = "ok"])
      /\ UNCHANGED <<objs, toks, seals, made>>

Next == Room /\ (NewObj \/ Encrypt \/ Seal \/ Splice \/ Cut \/ Decrypt)
Spec == Init /\ [][Next]_vars
View == <<objs, toks, seals, made, last>>

-----------------------------------------------------------------------------
Accepted == last.kind = "decrypt" /\ last.r[1] = "ok"
\* C08: plaintext comes out only of what was sealed as a whole, and it is what was sealed
Integrity ==
  Accepted => LET t == last.tok IN
    /\ t.parts = 5 /\ ~t.h.crit /\ t.h.alg \in JweAlgs /\ t.h.enc \in Encs
    /\ \E s \in seals : /\ s[2] = t.iv /\ s[3] = t.h /\ s[4] = last.r[2]
                        /\ \E k \in DOMAIN last.a.keys : last.a.keys[k].priv /\ CekWith(t, last.a.keys[k].mat) = s[1]
\* ... under a shared key, only of what one who holds the key sealed
SharedKeyAuthentic ==
  Accepted /\ last.tok.h.alg \in KwAlgs /\ (\A k \in DOMAIN last.a.keys : last.a.keys[k].mat \in Honest) =>
    \E n \in DOMAIN made : made[n].cek = last.tok.ct[2] /\ made[n].to \in { last.a.keys[k].mat : k \in DOMAIN last.a.keys }
\* C09: no shared secret of a point off the recipient's curve opens a token
OnCurve == Accepted /\ last.tok.h.alg \in EcAlgs =>
  /\ last.tok.h.epk[1] \in {"honest", "adv"}
  /\ \E k \in DOMAIN last.a.keys : last.a.keys[k].crv = last.tok.h.epk[2]
\* C10: what a sender draws is used once, and the adversary learns no content key meant for others
FreshSecrets ==
  \A m, n \in DOMAIN made : m # n => /\ made[m].cek # made[n].cek /\ made[m].iv # made[n].iv
                                     /\ made[m].epk # NoEpk => made[m].epk # made[n].epk
Secrecy == \A n \in DOMAIN made : made[n].to \in Honest => made[n].cek \notin Knowledge
\* C04
KidHolds == Accepted => \E k \in DOMAIN last.a.keys : LET key == last.a.keys[k] IN
  /\ key.priv /\ Authenticates(last.tok, CekWith(last.tok, key.mat))
  /\ key.kty = KtyOf(last.tok.h.alg) /\ key.alg \in {"", last.tok.h.alg} /\ key.use \in {"", "enc"}
  /\ (last.o.haskid /\ last.o.kid # "") => key.kid = last.o.kid
FirstFitting ==
  last.kind = "encrypt" /\ last.r[1] = "tok" =>
    \E k \in DOMAIN last.keys :
      /\ last.keys[k] = last.r[2] /\ Fits(last.r[2], last.o.alg, ObjKid(last.o), "enc")
      /\ \A x \in 1..k-1 : ~Fits(last.keys[x], last.o.alg, ObjKid(last.o), "enc")
\* C07: what an honest party sealed opens with the key it was sealed for, whatever happened since
RoundTrip ==
  \A k \in DOMAIN toks : (toks[k].parts = 5 /\ <<toks[k].ct[2], toks[k].iv, toks[k].h, toks[k].ct[4]>> \in seals
                          /\ toks[k].tag[4] = toks[k].h /\ toks[k].h.epk[1] = "honest") =>
    \A l \in DOMAIN KeyLists : \A x \in DOMAIN KeyLists[l] :
      LET key == KeyLists[l][x] o == [pin |-> "", kid |-> "", haskid |-> FALSE, jwk |-> <<>>, jwtkid |-> ""]
          a == [keys |-> KeyLists[l], want |-> "", hascek |-> FALSE] IN
      (key.priv /\ Authenticates(toks[k], CekWith(toks[k], key.mat)) /\ Fits(key, toks[k].h.alg, "", "enc")) =>
        RejectBecause(o, Rec(toks[k]), a) = {} /\ ~MayRefuse(o, Rec(toks[k]), a) /\ Yields(o, Rec(toks[k]), a) = {toks[k].ct[4]}
\* C06: the outcome of a call is determined by its arguments, whatever came before
HistoryFree ==
  Accepted => LET new == [last.o EXCEPT !.pin = ""] IN RejectBecause(new, Rec(last.tok), last.a) = {}
=============================================================================
