------------------------------ MODULE MCJwkSys ------------------------------
EXTENDS JwkSys, TLC, Json
M(kty, crv) == [kty |-> kty, crv |-> crv]
MCMats == ( "R1" :> M("RSA", "") @@ "R2" :> M("RSA", "") @@ "E1" :> M("EC", "P-256") @@ "E2" :> M("EC", "P-384") @@ "E3" :> M("EC", "P-521")
            @@ "H1" :> M("oct", "") @@ "H2" :> M("oct", "") )
SmallMats == ( "R1" :> M("RSA", "") @@ "R2" :> M("RSA", "") @@ "E1" :> M("EC", "P-256") @@ "H1" :> M("oct", "") )
A(kid, use, alg) == [kid |-> kid, use |-> use, alg |-> alg]
MCAttrs == { A("", "", ""), A("k1", "", ""), A("k1", "sig", ""), A("k2", "", "RS256") }
SmallAttrs == { A("", "", "") }
One(from) == IF from = {} THEN {} ELSE {RandomElement(from)}
Finish == /\ Len(hist) = MaxCalls /\ last.kind # "done"
          /\ PrintT("BEHAVIOUR " \o ToJson(hist))
          /\ last' = [kind |-> "done"] /\ UNCHANGED <<objs, docs, sent, hist>>
GenSpec == Init /\ [][Next \/ Finish]_vars
=============================================================================
