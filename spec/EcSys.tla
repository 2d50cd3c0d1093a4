------------------------------- MODULE EcSys -------------------------------
(***************************************************************************)
(* The curve specification checked on itself, exhaustively on small        *)
(* curves.                                                                 *)
(*                                                                         *)
(* A behaviour picks a curve and two points and then computes a P + b Q in *)
(* projective coordinates by doubling and adding signed digits, any digits *)
(* ("Shamir's trick" with any recoding): whatever the digits, what has     *)
(* been accumulated is a P + b Q by the chord-and-tangent law.             *)
(***************************************************************************)
EXTENDS Ec
CONSTANTS Curves,      \* set of [n, p, q]
          MaxC,        \* largest coefficient
          Third        \* whether associativity is checked with third points
          , Sigs       \* set of curves [n, p, q, G, N] for the ECDSA laws
VARIABLES C, P, Q, z1, z2, a, b, acc
vars == <<C, P, Q, z1, z2, a, b, acc>>

Zs(D) == {1, 2} \cap 1..(D.n - 1)
Init == /\ C \in Curves /\ P \in Points(C) /\ Q \in Points(C)
        /\ z1 \in Zs(C) /\ z2 \in Zs(C)
        /\ a = 0 /\ b = 0 /\ acc = None
\* precomputed sums, by digits
Pre(i, j) ==
  LET JP == Proj(C, P, z1) JQ == Proj(C, Q, z2)
      X == CASE i = 0 -> None [] i = 1 -> JP [] i = -1 -> NegJ(C, JP)
      Y == CASE j = 0 -> None [] j = 1 -> JQ [] j = -1 -> NegJ(C, JQ)
  IN  AddJ(C, X, Y)
Digits(i, j) ==
  /\ 2 * a + i \in (-MaxC)..MaxC /\ 2 * b + j \in (-MaxC)..MaxC
  /\ a' = 2 * a + i /\ b' = 2 * b + j
  /\ acc' = AddJ(C, DoubleJ(C, acc), Pre(i, j))
  /\ UNCHANGED <<C, P, Q, z1, z2>>
Next == \/ \E i, j \in {-1, 0, 1} : Digits(i, j)
Spec == Init /\ [][Next]_vars

MulZ(D, R, k) == IF k >= 0 THEN Mul(D, R, k) ELSE Neg(D, Mul(D, R, -k))
\* the algorithm
Accumulated == /\ IsProj(C, acc)
               /\ Affine(C, acc) = Add(C, MulZ(C, P, a), MulZ(C, Q, b))
\* the group law, at the start of each behaviour
Start == a = 0 /\ b = 0 /\ acc = None
Group == Start =>
  LET R == Add(C, P, Q) IN
  /\ R \in Points(C)
  /\ P # None => Expand(C, P[1], P[2] % 2) = {P} /\ Compress(P) = <<P[1], P[2] % 2>>
  /\ R = Add(C, Q, P) /\ R = AddByProgram(C, P, Q)
  /\ Add(C, P, Neg(C, P)) = None /\ Add(C, P, None) = P
  /\ Third => \A T \in Points(C) : Add(C, R, T) = Add(C, P, Add(C, Q, T))
  /\ Mul(C, P, Cardinality(Points(C))) = None

\* ECDSA on D: everything signed verifies, and what verifies for a digest
\* and a key are the signatures of some nonce, with s or -s
EcdsaLaws(D) ==
  LET K == 1..(D.N - 1) IN
  \A d \in K : LET Y == Mul(D, D.G, d) IN
    \A h \in 0..(D.N - 1) :
      LET made == { SignRS(D, D.G, D.N, h, d, k) : k \in K }
          good == { m \in made : m[1] # 0 /\ m[2] # 0 }
          acceptd == { m \in K \X K : VerifyRS(D, D.G, D.N, h, m[1], m[2], Y) }
      IN  acceptd = good
ASSUME \A D \in Sigs : EcdsaLaws(D)
=============================================================================
