------------------------------- MODULE JwkSys -------------------------------
(***************************************************************************)
(* Key objects through their lives (C11 - C13): made from material, given  *)
(* attributes, loaded over, exported, read in again, copied for others.    *)
(* The material an object holds is a pair: pub, and sec, the private part  *)
(* ("" or the name of the material it belongs to).                         *)
(***************************************************************************)
EXTENDS Jwk
CONSTANTS
  Mats,          \* material -> [kty, crv]
  Attrs,         \* attribute records [kid, use, alg]
  MaxObj, MaxDoc, MaxCalls,
  KeepOld,       \* fault: loading a public key over a private one keeps the private part
  Careless       \* fault: a public copy takes over everything
VARIABLES objs, docs, sent, hist, last
vars == <<objs, docs, sent, hist, last>>
Pick(from) == from

Obj(m, private, at) ==
  [kty |-> Mats[m].kty, crv |-> Mats[m].crv, pub |-> m, sec |-> IF private THEN m ELSE "", kid |-> at.kid, use |-> at.use, alg |-> at.alg]
Rec(o) == [kty |-> o.kty, crv |-> o.crv, pub |-> o.pub, priv |-> o.sec # "", full |-> o.sec # "" /\ o.kty = "RSA",
           kid |-> o.kid, use |-> o.use, alg |-> o.alg, x5c |-> "", x5t |-> "", x5u |-> ""]
\* an export: the object's members, the private ones with the name of what they belong to
Doc(o, private) ==
  [ pub |-> o.pub, kty |-> o.kty, crv |-> o.crv, kid |-> o.kid, use |-> o.use, alg |-> o.alg,
    sec |-> IF o.kty = "oct" THEN o.pub ELSE IF private THEN o.sec ELSE "", names |-> Required(Rec(o), private) ]
Import(d) == [kty |-> d.kty, crv |-> d.crv, pub |-> d.pub, sec |-> d.sec, kid |-> d.kid, use |-> d.use, alg |-> d.alg]
Thumb(o) == <<"tp", o.kty, o.crv, o.pub>>

Init == objs = <<>> /\ docs = <<>> /\ sent = {} /\ hist = <<>> /\ last = [kind |-> "none"]
Log(a) == hist' = Append(hist, a)
New == /\ Len(objs) < MaxObj
       /\ \E m \in Pick(DOMAIN Mats), p \in Pick(BOOLEAN), at \in Pick(Attrs) :
            LET q == p \/ Mats[m].kty = "oct" IN
            /\ objs' = Append(objs, Obj(m, q, at))
            /\ Log([a |-> "new", obj |-> Len(objs) + 1, mat |-> m, private |-> q, kid |-> at.kid, use |-> at.use, alg |-> at.alg])
       /\ last' = [kind |-> "none"] /\ UNCHANGED <<docs, sent>>
Export == /\ Len(docs) < MaxDoc
          /\ \E i \in Pick(DOMAIN objs), p \in Pick(BOOLEAN) :
               LET d == Doc(objs[i], p) IN
               /\ docs' = Append(docs, [doc |-> d, of |-> objs[i], private |-> p])
               /\ sent' = IF p \/ objs[i].kty = "oct" THEN sent ELSE sent \cup {d.sec}
               /\ Log([a |-> "export", obj |-> i, private |-> p, doc |-> Len(docs) + 1])
          /\ last' = [kind |-> "none"] /\ UNCHANGED objs
Again == /\ Len(objs) < MaxObj
         /\ \E d \in Pick(DOMAIN docs) :
              /\ objs' = Append(objs, Import(docs[d].doc))
              /\ last' = [kind |-> "again", doc |-> docs[d], obj |-> Import(docs[d].doc)]
              /\ Log([a |-> "again", doc |-> d, obj |-> Len(objs) + 1])
         /\ UNCHANGED <<docs, sent>>
Copy == /\ Len(objs) < MaxObj
        /\ \E i \in Pick({ x \in DOMAIN objs : objs[x].kty # "oct" }) :
             LET c == [objs[i] EXCEPT !.sec = IF Careless THEN @ ELSE ""] IN
             /\ objs' = Append(objs, c)
             /\ sent' = sent \cup {c.sec}
             /\ last' = [kind |-> "copy", of |-> objs[i], obj |-> c]
             /\ Log([a |-> "copy", obj |-> i, new |-> Len(objs) + 1])
        /\ UNCHANGED docs
Header == /\ \E i \in Pick({ x \in DOMAIN objs : objs[x].kty # "oct" }), how \in Pick({"jwsjwk", "dump", "epk"}) :
               /\ how = "epk" => objs[i].kty = "EC" /\ objs[i].sec # ""
               /\ sent' = sent \cup {Doc(objs[i], FALSE).sec}
               /\ Log([a |-> "header", obj |-> i, how |-> how])
          /\ last' = [kind |-> "none"] /\ UNCHANGED <<objs, docs>>
Set == /\ \E i \in Pick(DOMAIN objs), f \in Pick({"kid", "use", "alg"}), v \in Pick({"", "k1", "sig"}) :
            /\ objs' = [objs EXCEPT ![i][f] = v]
            /\ Log([a |-> "set", obj |-> i, attr |-> f, val |-> v])
       /\ last' = [kind |-> "none"] /\ UNCHANGED <<docs, sent>>
AddKid == /\ \E i \in Pick(DOMAIN objs) :
               /\ objs' = [objs EXCEPT ![i].kid = "tp-" \o objs[i].pub]
               /\ Log([a |-> "addkid", obj |-> i])
          /\ last' = [kind |-> "none"] /\ UNCHANGED <<docs, sent>>
\* other material of the same type; EC keys are loaded as pairs
Loads == { <<i, m, p>> \in (DOMAIN objs) \X (DOMAIN Mats) \X BOOLEAN :
             /\ objs[i].kty = Mats[m].kty /\ objs[i].kty # "oct"
             /\ objs[i].kty = "EC" => p }
Load == /\ Loads # {}
        /\ \E l \in Pick(Loads) : LET i == l[1] m == l[2] p == l[3] IN
             /\ objs' = [objs EXCEPT ![i].pub = m, ![i].sec = IF p THEN m ELSE IF KeepOld THEN @ ELSE ""]
             /\ Log([a |-> "load", obj |-> i, mat |-> m, private |-> p])
        /\ last' = [kind |-> "none"] /\ UNCHANGED <<docs, sent>>
Use == /\ \E i, j \in Pick(DOMAIN objs), how \in Pick({"eq", "hash", "tp", "use", "cross"}) :
            Log([a |-> how, obj |-> i, other |-> j])
       /\ last' = [kind |-> "none"] /\ UNCHANGED <<objs, docs, sent>>
Next == Len(hist) < MaxCalls /\ (New \/ Export \/ Again \/ Copy \/ Header \/ Set \/ AddKid \/ Load \/ Use)
Spec == Init /\ [][Next]_vars
View == <<objs, docs, sent, last, Len(hist)>>

-----------------------------------------------------------------------------
\* C11: no object mixes materials; what was exported comes back
Unmixed == \A i \in DOMAIN objs : objs[i].sec \in {"", objs[i].pub}
RoundTrip ==
  last.kind = "again" => IF last.doc.private \/ last.doc.of.kty = "oct" THEN last.obj = last.doc.of ELSE last.obj = [last.doc.of EXCEPT !.sec = ""]
\* C12: nothing private is ever sent out
NothingPrivate == sent \subseteq {""}
PublicDocs == \A d \in DOMAIN docs : (~docs[d].private /\ docs[d].of.kty # "oct") => docs[d].doc.names \cap PrivateOf[docs[d].of.kty] = {}
CopyIsKey == last.kind = "copy" => SameKey(Rec(last.of), Rec(last.obj)) /\ last.obj.sec = ""
\* C13: equality is an equivalence, and equal keys have equal thumbprints
Eq(i, j) == SameKey(Rec(objs[i]), Rec(objs[j]))
Equivalence ==
  \A i, j, k \in DOMAIN objs : /\ Eq(i, i) /\ Eq(i, j) = Eq(j, i) /\ (Eq(i, j) /\ Eq(j, k) => Eq(i, k))
                               /\ Eq(i, j) => Thumb(objs[i]) = Thumb(objs[j])
                               /\ (Thumb(objs[i]) = Thumb(objs[j]) /\ \A a \in {"kid", "use", "alg"} : objs[i][a] = objs[j][a]) => Eq(i, j)
\* the members of a document determine the key
Determined == \A c, d \in DOMAIN docs : docs[c].doc = docs[d].doc => SameKey(Rec(docs[c].of), Rec(docs[d].of))
=============================================================================
