----------------------------- MODULE MCKeysSys -----------------------------
EXTENDS KeysSys, Json
P(good, kty, kid) == [good |-> good, kty |-> kty, kid |-> kid]
MCTemplates == << P(TRUE, "RSA", "k1"), P(TRUE, "EC", ""), P(TRUE, "oct", "k1"), P(FALSE, "RSA", ""), P(TRUE, "RSA", "k2"), P(TRUE, "foo", "k1") >>
SmallTemplates == << P(TRUE, "RSA", "k1"), P(TRUE, "EC", ""), P(FALSE, "oct", "") >>
One(from) == IF from = {} THEN {} ELSE {RandomElement(from)}
Finish == /\ Len(hist) = MaxCalls /\ last.kind # "done"
          /\ PrintT("BEHAVIOUR " \o ToJson(hist))
          /\ last' = [kind |-> "done"] /\ UNCHANGED <<sets, book, next, hist>>
ASSUME PrintT("LISTS " \o ToJson(MCTemplates))
GenSpec == Init /\ [][Next \/ Finish]_vars
=============================================================================
