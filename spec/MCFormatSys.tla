---------------------------- MODULE MCFormatSys ----------------------------
EXTENDS FormatSys
JwsSc == { <<"jws", a, "", FALSE, FALSE>> : a \in JwsAlgs }
\* key wrap of n blocks runs 6n steps: the quick set wraps short keys
Short == { "A128GCM", "A192GCM" }
JweQuick == { <<"jwe", a, e, z, FALSE>> : a \in {"RSA1_5", "RSA-OAEP", "RSA-OAEP-256", "ECDH-ES"}, e \in Encs, z \in {TRUE} }
       \cup { <<"jwe", a, e, FALSE, FALSE>> : a \in EcKwAlgs \cup KwAlgs, e \in Short }
       \cup { <<"jwe", a, "A128GCM", FALSE, TRUE>> : a \in KwAlgs }
JweFull == { <<"jwe", a, e, z, FALSE>> : a \in JweAlgs, e \in Encs, z \in BOOLEAN }
       \cup { <<"jwe", a, e, FALSE, TRUE>> : a \in KwAlgs, e \in Encs }
KwSc(ns, ms) == { <<"kw", ToString(n), "", FALSE, FALSE>> : n \in ns } \cup { <<"kwpad", ToString(m), "", FALSE, FALSE>> : m \in ms }
Quick == KwSc({2, 3}, {1, 8, 9, 16, 17}) \cup JwsSc \cup JweQuick
JwsOnly == JwsSc
Full == KwSc(2..8, 1..41) \cup JwsSc \cup JweFull
=============================================================================
