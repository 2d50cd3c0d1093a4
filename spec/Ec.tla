--------------------------------- MODULE Ec ---------------------------------
(***************************************************************************)
(* Elliptic curves and ECDSA (C17).                                        *)
(*                                                                         *)
(* A curve is [n, p, q]: y^2 = x^3 - p x - q over the integers modulo the  *)
(* prime n > 3 (the form this library uses).  A point is <<x, y>>, the     *)
(* neutral element <<>>.  In projective (Jacobian) coordinates a point is  *)
(* <<X, Y, Z, Z^2, Z^3>> with x = X/Z^2 and y = Y/Z^3.                     *)
(*                                                                         *)
(* The chord-and-tangent law is also given as two programs (SlopeAdd ...), *)
(* which the harness runs for curves whose numbers are beyond TLC; EcSys   *)
(* checks that both say the same.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

RECURSIVE Pow(_, _, _)
Pow(a, k, n) == IF k = 0 THEN 1 % n
                ELSE LET h == Pow(a, k \div 2, n) h2 == (h * h) % n IN
                     IF k % 2 = 0 THEN h2 ELSE (h2 * (a % n)) % n
Inv(a, n) == Pow(a % n, n - 2, n)
Mulm(a, b, n) == ((a % n) * (b % n)) % n

None == <<>>
OnCurve(C, P) == P = None \/
  Mulm(P[2], P[2], C.n) = (Mulm(Mulm(P[1], P[1], C.n), P[1], C.n) - Mulm(C.p, P[1], C.n) - C.q) % C.n
Reduced(C, P) == P = None \/ \A i \in 1..2 : P[i] \in 0..(C.n - 1)
Points(C) == {None} \cup { P \in (0..(C.n - 1)) \X (0..(C.n - 1)) : OnCurve(C, P) }
\* compressed points: the abscissa and the sign (parity) of the other
Compress(P) == <<P[1], P[2] % 2>>
Expand(C, x, sign) == { <<x, y>> : y \in { y \in 0..(C.n - 1) : y % 2 = sign /\ OnCurve(C, <<x, y>>) } }
Neg(C, P) == IF P = None THEN None ELSE <<P[1], (-P[2]) % C.n>>
Add(C, P, Q) ==
  IF P = None THEN Q ELSE IF Q = None THEN P
  ELSE IF P[1] = Q[1] /\ (P[2] + Q[2]) % C.n = 0 THEN None
  ELSE LET n == C.n
           s == IF P = Q THEN Mulm(3 * Mulm(P[1], P[1], n) - C.p, Inv(2 * P[2], n), n)
                ELSE Mulm(P[2] - Q[2], Inv(P[1] - Q[1], n), n)
           x == (Mulm(s, s, n) - P[1] - Q[1]) % n
       IN  <<x, (Mulm(s, P[1] - x, n) - P[2]) % n>>
RECURSIVE Mul(_, _, _)
Mul(C, P, k) == IF k = 0 THEN None
                ELSE LET h == Mul(C, P, k \div 2) h2 == Add(C, h, h) IN
                     IF k % 2 = 0 THEN h2 ELSE Add(C, h2, P)

------------------------------------------------------------------------------
(* Projective coordinates                                                   *)
IsProj(C, J) == J = None \/ /\ Len(J) = 5 /\ J[3] % C.n # 0
                            /\ J[4] % C.n = Mulm(J[3], J[3], C.n) /\ J[5] % C.n = Mulm(J[4], J[3], C.n)
Affine(C, J) == IF J = None THEN None
                ELSE <<Mulm(J[1], Inv(J[4], C.n), C.n), Mulm(J[2], Inv(J[5], C.n), C.n)>>
Proj(C, P, z) == IF P = None THEN None
                 ELSE LET n == C.n z2 == Mulm(z, z, n) z3 == Mulm(z2, z, n) IN
                      <<Mulm(P[1], z2, n), Mulm(P[2], z3, n), z % n, z2, z3>>
DoubleJ(C, J) ==
  IF J = None \/ J[2] % C.n = 0 THEN None
  ELSE LET n == C.n
           yy == Mulm(J[2], J[2], n)
           a == Mulm(4 * J[1], yy, n)
           b == (3 * Mulm(J[1], J[1], n) - Mulm(C.p, Mulm(J[4], J[4], n), n)) % n
           x == (Mulm(b, b, n) - 2 * a) % n
           y == (Mulm(b, a - x, n) - 8 * Mulm(yy, yy, n)) % n
           z == Mulm(2 * J[2], J[3], n)
           z2 == Mulm(z, z, n)
       IN  <<x, y, z, z2, Mulm(z2, z, n)>>
AddJ(C, J, K) ==
  IF J = None THEN K ELSE IF K = None THEN J
  ELSE LET n == C.n
           u1 == Mulm(J[1], K[4], n)
           u2 == Mulm(K[1], J[4], n)
           s1 == Mulm(J[2], K[5], n)
           s2 == Mulm(K[2], J[5], n)
           h == (u2 - u1) % n
           r == (s2 - s1) % n
           hh == Mulm(h, h, n)
           hc == Mulm(hh, h, n)
           x == (Mulm(r, r, n) - hc - 2 * Mulm(u1, hh, n)) % n
           y == (Mulm(r, Mulm(u1, hh, n) - x, n) - Mulm(s1, hc, n)) % n
           z == Mulm(Mulm(J[3], K[3], n), h, n)
           z2 == Mulm(z, z, n)
       IN  IF h # 0 THEN <<x, y, z, z2, Mulm(z2, z, n)>>
           ELSE IF (s1 + s2) % n = 0 THEN None ELSE DoubleJ(C, J)
NegJ(C, J) == IF J = None THEN None ELSE [J EXCEPT ![2] = (-@) % C.n]

------------------------------------------------------------------------------
(* ECDSA (FIPS 186-4 section 6, SEC 1 section 4.1) on curve C with base     *)
(* point G of prime order N; an integer of the signature takes w octets.    *)
RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)
RECURSIVE Trunc(_, _)
Trunc(h, b) == IF BitLen(h) <= b THEN h ELSE Trunc(h \div 2, b)
RECURSIVE Os2ip(_)
Os2ip(s) == IF s = <<>> THEN 0 ELSE Os2ip(SubSeq(s, 1, Len(s) - 1)) * 256 + s[Len(s)]
RECURSIVE I2osp(_, _)
I2osp(x, w) == IF w = 0 THEN <<>> ELSE I2osp(x \div 256, w - 1) \o <<x % 256>>

\* the signature that nonce k gives; r = 0 or s = 0 means k cannot be used
SignRS(C, G, N, h, d, k) ==
  LET R == Mul(C, G, k)
      r == IF R = None THEN 0 ELSE R[1] % N
      s == Mulm(Inv(k, N), Trunc(h, BitLen(N)) + Mulm(r, d, N), N)
  IN  <<r, s>>
VerifyRS(C, G, N, h, r, s, Q) ==
  /\ r \in 1..(N - 1) /\ s \in 1..(N - 1)
  /\ LET w == Inv(s, N)
         u1 == Mulm(Trunc(h, BitLen(N)), w, N)
         u2 == Mulm(r, w, N)
         R == Add(C, Mul(C, G, u1), Mul(C, Q, u2))
     IN  R # None /\ R[1] % N = r
VerifySig(C, G, N, w, h, sig, Q) ==
  Len(sig) = 2 * w /\ VerifyRS(C, G, N, h, Os2ip(SubSeq(sig, 1, w)), Os2ip(SubSeq(sig, w + 1, 2 * w)), Q)

------------------------------------------------------------------------------
(* The curves of FIPS 186-4 appendix D.1.2: y^2 = x^3 - 3 x + b             *)
Domain == (
  192 :> [ n |-> "fffffffffffffffffffffffffffffffeffffffffffffffff",
            order |-> "ffffffffffffffffffffffff99def836146bc9b1b4d22831",
            b |-> "64210519e59c80e70fa7e9ab72243049feb8deecc146b9b1",
            x |-> "188da80eb03090f67cbf20eb43a18800f4ff0afd82ff1012",
            y |-> "7192b95ffc8da78631011ed6b24cdd573f977a11e794811" ]
  @@ 224 :> [ n |-> "ffffffffffffffffffffffffffffffff000000000000000000000001",
            order |-> "ffffffffffffffffffffffffffff16a2e0b8f03e13dd29455c5c2a3d",
            b |-> "b4050a850c04b3abf54132565044b0b7d7bfd8ba270b39432355ffb4",
            x |-> "b70e0cbd6bb4bf7f321390b94a03c1d356c21122343280d6115c1d21",
            y |-> "bd376388b5f723fb4c22dfe6cd4375a05a07476444d5819985007e34" ]
  @@ 256 :> [ n |-> "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
            order |-> "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
            b |-> "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
            x |-> "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
            y |-> "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5" ]
  @@ 384 :> [ n |-> "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff",
            order |-> "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
            b |-> "b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef",
            x |-> "aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7",
            y |-> "3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f" ]
  @@ 521 :> [ n |-> "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
            order |-> "1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409",
            b |-> "51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00",
            x |-> "c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66",
            y |-> "11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650" ] )
CurveOf == ( "P-256" :> 256 @@ "P-384" :> 384 @@ "P-521" :> 521 )

------------------------------------------------------------------------------
(* The law as programs over "add", "sub", "mul", "div" modulo n             *)
St(r, f, a) == << <<r, f>> \o a >>
Chord == St("dy", "sub", <<"y1", "y2">>) \o St("dx", "sub", <<"x1", "x2">>) \o St("s", "div", <<"dy", "dx">>)
Tangent == St("xx", "mul", <<"x1", "x1">>) \o St("x3", "mul", <<"#3", "xx">>) \o St("nu", "sub", <<"x3", "p">>)
        \o St("de", "mul", <<"#2", "y1">>) \o St("s", "div", <<"nu", "de">>)
ThirdPoint == St("ss", "mul", <<"s", "s">>) \o St("t", "sub", <<"ss", "x1">>) \o St("x", "sub", <<"t", "x2">>)
      \o St("u", "sub", <<"x1", "x">>) \o St("v", "mul", <<"s", "u">>) \o St("y", "sub", <<"v", "y1">>)
EcPrograms == [ chord |-> Chord \o ThirdPoint, tangent |-> Tangent \o ThirdPoint,
                \* modulo the order; "c" is the truncated digest
                sign |-> St("rd", "mul", <<"r", "d">>) \o St("e", "add", <<"c", "rd">>) \o St("s", "div", <<"e", "k">>),
                verify |-> St("u1", "div", <<"c", "s">>) \o St("u2", "div", <<"r", "s">>),
                curve |-> St("xx", "mul", <<"x", "x">>) \o St("xp", "sub", <<"xx", "p">>) \o St("xc", "mul", <<"xp", "x">>)
                       \o St("rhs", "sub", <<"xc", "q">>) \o St("lhs", "mul", <<"y", "y">>) ]
Lit == ( "#2" :> 2 @@ "#3" :> 3 )
RECURSIVE Exec(_, _, _)
Exec(prog, env, n) ==
  IF prog = <<>> THEN env
  ELSE LET i == Head(prog)
           A(x) == IF x \in DOMAIN Lit THEN Lit[x] ELSE env[x]
           v == CASE i[2] = "add" -> (A(i[3]) + A(i[4])) % n
                  [] i[2] = "sub" -> (A(i[3]) - A(i[4])) % n
                  [] i[2] = "mul" -> Mulm(A(i[3]), A(i[4]), n)
                  [] i[2] = "div" -> Mulm(A(i[3]), Inv(A(i[4]), n), n)
       IN  Exec(Tail(prog), (i[1] :> v) @@ env, n)
\* addition by the programs; the case distinction is the harness's too
AddByProgram(C, P, Q) ==
  IF P = None THEN Q ELSE IF Q = None THEN P
  ELSE IF P[1] = Q[1] /\ (P[2] + Q[2]) % C.n = 0 THEN None
  ELSE LET env == ("x1" :> P[1] @@ "y1" :> P[2] @@ "x2" :> Q[1] @@ "y2" :> Q[2] @@ "p" :> C.p)
           r == Exec(IF P = Q THEN EcPrograms.tangent ELSE EcPrograms.chord, env, C.n)
       IN  <<r["x"], r["y"]>>
=============================================================================
