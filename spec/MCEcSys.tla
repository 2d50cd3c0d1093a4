------------------------------ MODULE MCEcSys ------------------------------
EXTENDS EcSys
\* all curves y^2 = x^3 - p x - q over GF(n) that are not singular
Disc(n, p, q) == (-4 * p * p * p + 27 * q * q) % n
All(n) == { [n |-> n, p |-> p, q |-> q] : p \in 0..(n - 1), q \in 0..(n - 1) } 
Smooth(n) == { D \in All(n) : Disc(D.n, D.p, D.q) # 0 }
Nist(n) == { D \in Smooth(n) : D.p = 3 % n }
QuickCurves == Nist(5) \cup Nist(7)
FullCurves == Smooth(5) \cup Smooth(7) \cup Smooth(11) \cup Nist(13) \cup Nist(17)
IsPrime(m) == m > 1 /\ \A k \in 2..(m - 1) : m % k # 0
\* curves of prime order with one of their points as base
WithBase(S) == { [n |-> D.n, p |-> D.p, q |-> D.q, N |-> Cardinality(Points(D)), G |-> CHOOSE R \in Points(D) : R # None] :
                 D \in { E \in S : IsPrime(Cardinality(Points(E))) /\ Cardinality(Points(E)) > 3 } }
QuickSigs == WithBase(Nist(7) \cup Nist(11))
FullSigs == WithBase(Smooth(7) \cup Nist(11) \cup Nist(13) \cup Nist(17))
=============================================================================
