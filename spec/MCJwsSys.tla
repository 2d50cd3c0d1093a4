------------------------------ MODULE MCJwsSys ------------------------------
EXTENDS JwsSys, TLC, Json, IOUtils
K(mat, kty, crv, kid, use, alg, priv) ==
  [mat |-> mat, kty |-> kty, crv |-> crv, kid |-> kid, use |-> use, alg |-> alg, priv |-> priv, size |-> IF kty = "RSA" THEN 2048 ELSE 0]
R1 == K("R1", "RSA", "", "k1", "", "", TRUE)
R1n == K("R1", "RSA", "", "", "", "", TRUE)
R1a == K("R1", "RSA", "", "k1", "sig", "RS256", TRUE)
R2 == K("R2", "RSA", "", "k2", "enc", "", TRUE)
E1 == K("E1", "EC", "P-256", "k1", "", "ES256", TRUE)
E2 == K("E2", "EC", "P-384", "k1", "", "", TRUE)
H1 == K("H1", "oct", "", "", "", "", TRUE)
H2 == K("H2", "oct", "", "k2", "sig", "HS256", TRUE)
F1 == K("F1", "foo", "", "k1", "", "", FALSE)
MCKeyLists == << <<>>, <<R1>>, <<R1n>>, <<E2, R2, R1a>>, <<E2, E1>>, <<H1>>, <<R2, H2, F1, H1>>, <<F1>>, <<R1, R2, E1, H1>> >>
SmallKeyLists == << <<>>, <<R2, R1>>, <<E2, E1, H1>>, <<H1, R1n>> >>
C(pin, haspin, kid, haskid) == [pin |-> pin, haspin |-> haspin, kid |-> kid, haskid |-> haskid]
MCObjects == { C("", FALSE, "", FALSE), C("RS256", TRUE, "", FALSE), C("HS256", TRUE, "", FALSE), C("ES256", TRUE, "", FALSE),
               C("none", TRUE, "", FALSE), C("RS256", TRUE, "k2", TRUE), C("PS256", TRUE, "k1", TRUE), C("ES384", TRUE, "", FALSE) }
SmallObjects == { C("", FALSE, "", FALSE), C("RS256", TRUE, "", FALSE), C("HS256", TRUE, "k1", TRUE) }
H(alg, algk, kid, crit) == [alg |-> alg, algk |-> algk, kid |-> kid, crit |-> crit]
MCHeaders == { H("RS256", "str", "", FALSE), H("RS256", "str", "k1", FALSE), H("RS256", "str", "k2", FALSE), H("RS256", "str", "k1", TRUE),
               H("PS256", "str", "k1", FALSE), H("HS256", "str", "", FALSE), H("HS256", "str", "k1", FALSE), H("HS256", "str", "k2", FALSE),
               H("ES256", "str", "k1", FALSE), H("ES384", "str", "", FALSE), H("none", "str", "", FALSE), H("nOne", "str", "k1", FALSE),
               H("", "null", "", FALSE), H("", "absent", "", FALSE), H("", "other", "", FALSE), H("XX256", "str", "", FALSE),
               H("none", "str", "", TRUE) }
SmallHeaders == { H("RS256", "str", "k1", FALSE), H("HS256", "str", "", FALSE), H("none", "str", "", FALSE), H("RS256", "str", "", TRUE),
                  H("", "absent", "", FALSE) }
MCHonest == {"R1", "R2", "E1", "E2", "H1", "H2"}

\* Generating behaviours: choices are made at random and each finished behaviour is printed once
One(from) == IF from = {} THEN {} ELSE {RandomElement(from)}
Finish == /\ Len(hist) = MaxCalls /\ last.kind # "done"
          /\ PrintT("BEHAVIOUR " \o ToJson(hist))
          /\ last' = [kind |-> "done"] /\ UNCHANGED <<objs, toks, signed, hist>>
ASSUME PrintT("LISTS " \o ToJson(MCKeyLists))
GenSpec == Init /\ [][Next \/ Finish]_vars
=============================================================================
