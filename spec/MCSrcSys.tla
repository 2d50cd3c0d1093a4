------------------------------ MODULE MCSrcSys ------------------------------
EXTENDS SrcSys, Json
I(good, mat, kid) == [good |-> good, id |-> "", key |-> [mat |-> mat, kid |-> kid]]
P(kind, status, to, pub, items) == [kind |-> kind, status |-> status, to |-> to, locked |-> FALSE, key |-> [pub |-> pub, priv |-> FALSE], items |-> items]
MCPages == << P("jwks", 200, "", "", <<I(TRUE, "RSA", "k1"), I(TRUE, "EC", "")>>), P("jwks", 200, "", "", <<I(TRUE, "oct", "k2"), I(FALSE, "RSA", "")>>),
              P("jwks", 500, "", "", <<I(TRUE, "RSA", "k1")>>), P("cert", 200, "", "A", <<>>), P("cert", 200, "", "B", <<>>), P("cert", 404, "", "A", <<>>),
              P("other", 200, "", "", <<>>), P("move", 302, "p2", "", <<>>), P("jwks", 200, "", "", <<>>) >>
SmallPages == << MCPages[1], MCPages[2], MCPages[3], MCPages[4], MCPages[5], MCPages[8] >>
MCPlaces == {"p1", "p2", "p3"}
One(from) == IF from = {} THEN {} ELSE {RandomElement(from)}
Finish == /\ Len(hist) = MaxCalls /\ last.kind # "done"
          /\ PrintT("BEHAVIOUR " \o ToJson(hist))
          /\ last' = [kind |-> "done"] /\ UNCHANGED <<site, colls, book, cache, hist>>
ASSUME PrintT("LISTS " \o ToJson(MCPages))
GenSpec == Init /\ [][Next \/ Finish]_vars
=============================================================================
