------------------------------ MODULE MCJweSys ------------------------------
EXTENDS JweSys, TLC, Json, IOUtils
K(mat, kty, crv, kid, use, alg, priv) ==
  [mat |-> mat, kty |-> kty, crv |-> crv, kid |-> kid, use |-> use, alg |-> alg, priv |-> priv, size |-> IF kty = "RSA" THEN 2048 ELSE 0]
M(kty, crv) == [kty |-> kty, crv |-> crv]
MCMats == ( "R1" :> M("RSA", "") @@ "R2" :> M("RSA", "") @@ "E1" :> M("EC", "P-256") @@ "E2" :> M("EC", "P-384") @@ "E3" :> M("EC", "P-256")
            @@ "H1" :> M("oct", "") @@ "H2" :> M("oct", "") @@ "ADV_RSA" :> M("RSA", "") @@ "ADV_OCT" :> M("oct", "") @@ "ADV_EC" :> M("EC", "P-256") )
SmallMats == ( "R1" :> M("RSA", "") @@ "E1" :> M("EC", "P-256") @@ "H1" :> M("oct", "") @@ "ADV_RSA" :> M("RSA", "") )
MCHonest == {"R1", "R2", "E1", "E2", "E3", "H1", "H2"}
R1 == K("R1", "RSA", "", "k1", "", "", TRUE)
R1p == K("R1", "RSA", "", "k1", "", "", FALSE)
R1s == K("R1", "RSA", "", "k1", "sig", "", TRUE)
R1o == K("R1", "RSA", "", "", "enc", "RSA-OAEP", TRUE)
R2 == K("R2", "RSA", "", "k2", "enc", "", TRUE)
RA == K("ADV_RSA", "RSA", "", "k1", "", "", FALSE)
E1 == K("E1", "EC", "P-256", "k1", "", "", TRUE)
E1p == K("E1", "EC", "P-256", "", "", "ECDH-ES", FALSE)
E2 == K("E2", "EC", "P-384", "k2", "", "", TRUE)
E3 == K("E3", "EC", "P-256", "", "", "ECDH-ES+A128KW", TRUE)
H1 == K("H1", "oct", "", "", "", "", TRUE)
H2 == K("H2", "oct", "", "k2", "enc", "A128KW", TRUE)
F1 == K("F1", "foo", "", "k1", "", "", FALSE)
MCKeyLists == << <<>>, <<R1>>, <<R1p>>, <<R2, R1>>, <<E1, R1s, R1o>>, <<RA>>, <<E1>>, <<E1p>>, <<E2, E1>>, <<E3, E1>>, <<H1>>, <<H2, H1>>,
                 <<F1, R2, E2, H2, R1, E1, H1>>, <<F1>>, <<RA, R1>> >>
SmallKeyLists == << <<>>, <<R1>>, <<E1, R1s, RA>>, <<H1, R1o>>, <<E1p>> >>
C(alg, enc, zip, kid, haskid) == [alg |-> alg, enc |-> enc, zip |-> zip, kid |-> kid, haskid |-> haskid]
A1 == "A128CBC-HS256"
MCObjects == { C("RSA-OAEP", A1, "", "", FALSE), C("RSA-OAEP-256", "A256GCM", "DEF", "", FALSE), C("RSA1_5", "A256CBC-HS512", "", "k2", TRUE),
               C("A128KW", A1, "", "", FALSE), C("A256KW", "A192CBC-HS384", "", "", FALSE), C("ECDH-ES", A1, "", "", FALSE),
               C("ECDH-ES+A128KW", A1, "DEF", "", FALSE), C("ECDH-ES+A256KW", "A128GCM", "", "k1", TRUE), C("", "", "", "", FALSE) }
SmallObjects == { C("RSA-OAEP", A1, "", "", FALSE), C("A128KW", A1, "", "", FALSE), C("ECDH-ES", A1, "", "", FALSE), C("ECDH-ES+A128KW", A1, "", "k1", TRUE) }
H(alg, enc, kid, crit, zip) == [alg |-> alg, enc |-> enc, kid |-> kid, crit |-> crit, zip |-> zip]
MCHeaders == { H("RSA-OAEP", A1, "", FALSE, ""), H("RSA-OAEP", A1, "k1", FALSE, "DEF"), H("RSA-OAEP", A1, "k1", TRUE, ""), H("RSA1_5", A1, "k2", FALSE, ""),
               H("RSA-OAEP-256", "A256GCM", "", FALSE, ""), H("A128KW", A1, "", FALSE, ""), H("A256KW", A1, "k2", FALSE, ""),
               H("ECDH-ES", A1, "", FALSE, ""), H("ECDH-ES", A1, "k1", TRUE, ""), H("ECDH-ES+A128KW", A1, "", FALSE, ""),
               H("ECDH-ES+A256KW", "A192CBC-HS384", "", FALSE, "DEF"), H("dir", A1, "", FALSE, ""), H("RSA-OAEP", "A128CBC", "", FALSE, ""),
               H("none", A1, "", FALSE, "") }
SmallHeaders == { H("RSA-OAEP", A1, "", FALSE, ""), H("ECDH-ES", A1, "", FALSE, ""), H("A128KW", A1, "", FALSE, ""), H("RSA-OAEP", A1, "", TRUE, ""),
                  H("dir", A1, "", FALSE, "") }

One(from) == IF from = {} THEN {} ELSE {RandomElement(from)}
Finish == /\ Len(hist) = MaxCalls /\ last.kind # "done"
          /\ PrintT("BEHAVIOUR " \o ToJson(hist))
          /\ last' = [kind |-> "done"] /\ UNCHANGED <<objs, toks, seals, made, hist>>
ASSUME PrintT("LISTS " \o ToJson(MCKeyLists))
GenSpec == Init /\ [][Next \/ Finish]_vars
=============================================================================
