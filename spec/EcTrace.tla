------------------------------ MODULE EcTrace ------------------------------
(***************************************************************************)
(* Recorded calls of the curve arithmetic and of ECDSA against spec/Ec.tla *)
(* (C17).  On curves with small numbers TLC computes what is right; on     *)
(* large ones the harness does by the programs of Ec.tla and TLC compares. *)
(***************************************************************************)
EXTENDS TraceBase, Ec
VARIABLES i, viol
vars == <<i, viol>>

\* a point handed out is a reduced point
AffineIs(C, r, want) == r = want
ProjIs(C, r, want) == IF r = None THEN want = None ELSE want # None /\ IsProj(C, r) /\ Affine(C, r) = want
LawOk(e) ==
  LET C == e.C r == e.out.r IN
  CASE e.fn = "add"      -> AffineIs(C, r, Add(C, e.P, e.Q))
    [] e.fn = "neg"      -> AffineIs(C, r, Neg(C, e.P))
    [] e.fn \in {"mul", "mulp"} -> AffineIs(C, r, Mul(C, e.P, e.c))
    [] e.fn = "muladdp"  -> AffineIs(C, r, Add(C, Mul(C, e.P, e.c), Mul(C, e.Q, e.d)))
    [] e.fn = "addf"     -> ProjIs(C, r, Add(C, Affine(C, e.P), Affine(C, e.Q)))
    [] e.fn = "doublef"  -> ProjIs(C, r, Add(C, Affine(C, e.P), Affine(C, e.P)))
    [] e.fn = "negf"     -> ProjIs(C, r, Neg(C, Affine(C, e.P)))
    [] e.fn = "mulf"     -> ProjIs(C, r, Mul(C, Affine(C, e.P), e.c))
    [] e.fn = "muladdf"  -> ProjIs(C, r, Add(C, Mul(C, Affine(C, e.P), e.c), Mul(C, Affine(C, e.Q), e.d)))
    [] e.fn = "toproj"   -> ProjIs(C, r, e.P)
    [] e.fn = "fromproj" -> AffineIs(C, r, Affine(C, e.P))
    [] e.fn = "compress" -> r = Compress(e.P)
    [] e.fn = "element"  -> r = OnCurve(C, e.P)
    [] e.fn = "inv"      -> r \in 0..(C.n - 1) /\ Mulm(r, e.c, C.n) = 1
    [] e.fn = "curveq"   -> r = (Mulm(Mulm(e.P[1], e.P[1], C.n) - C.p, e.P[1], C.n) - Mulm(e.P[2], e.P[2], C.n)) % C.n
\* e.P: a compressed point, which need not be one
ExpandV(n, e) ==
  LET want == Expand(e.C, e.P[1], e.P[2]) IN
  IF want = {} THEN If(e.out.kind = "ok", V(n, {"C17"}, "a point that is not on the curve"))
  ELSE If(e.out.kind # "ok" \/ e.out.r \notin want, V(n, {"C17"}, "not the point that was compressed"))
LawV(n, e) == IF e.fn = "expand" THEN ExpandV(n, e) ELSE If(e.out.kind # "ok" \/ ~LawOk(e), V(n, {"C17"}, e.fn \o " is not the group law"))

SignV(n, e) ==
  LET C == e.C N == C.N w == e.w sig == e.out.r IN
  IF e.k # 0        \* the caller's nonce
  THEN LET m == SignRS(C, C.G, N, e.h, e.d, e.k) IN
       IF m[1] = 0 \/ m[2] = 0 THEN If(e.out.kind = "ok", V(n, {"C17"}, "a signature with an unusable nonce"))
       ELSE If(e.out.kind # "ok" \/ sig # I2osp(m[1], w) \o I2osp(m[2], w), V(n, {"C17", "C02"}, "not the signature"))
  ELSE If(e.out.kind # "ok" \/ ~VerifySig(C, C.G, N, w, e.h, sig, Mul(C, C.G, e.d)), V(n, {"C17", "C02"}, "not a signature"))
VerifyV(n, e) ==
  LET want == VerifySig(e.C, e.C.G, e.C.N, e.w, e.h, e.sig, e.Q) IN
  IF e.out.kind # "ok" THEN V(n, {"C17"}, "verify fails")
  ELSE If(e.out.r # want, V(n, {"C17", "C01"} \cup IF want THEN {"C02"} ELSE {}, IF want THEN "a signature is refused" ELSE "no signature is accepted"))
PairV(n, e) ==
  If(e.out.kind # "ok" \/ e.out.d \notin 1..(e.C.N - 1) \/ e.out.Q # Mul(e.C, e.C.G, e.out.d), V(n, {"C17", "C10"}, "not a key pair"))
PubV(n, e) == If(e.out.kind # "ok" \/ e.out.r # Mul(e.C, e.C.G, e.d), V(n, {"C17"}, "not the public key"))
DhV(n, e) == If(e.out.kind # "ok" \/ e.out.r # I2osp(Mul(e.C, e.Q, e.d)[1], e.w), V(n, {"C17", "C09"}, "not the shared secret"))
BigV(n, e) == If(e.out.kind # "ok" \/ e.out.r # e.want, V(n, IF e.what = "verify" THEN {"C17", "C01", "C02"} ELSE {"C17"}, e.what \o " on a large curve"))
DomV(n, e) ==
  If(e.out.kind # "ok" \/ e.out.r # Domain[e.bits], V(n, {"C17", "C02", "C07"}, "not the curve of FIPS 186-4"))
NameV(n, e) ==
  IF e.name \in DOMAIN CurveOf
  THEN If(e.out.kind # "ok" \/ e.out.bits # CurveOf[e.name] \/ e.out.name # e.name, V(n, {"C17"}, "not the named curve"))
  ELSE If(e.out.kind = "ok", V(n, {"C17", "C11"}, "an unknown curve has a name"))

Verdict(n, e) ==
  CASE e.op = "law" -> LawV(n, e)
    [] e.op = "sign" -> SignV(n, e)
    [] e.op = "verify" -> VerifyV(n, e)
    [] e.op = "pair" -> PairV(n, e)
    [] e.op = "pub" -> PubV(n, e)
    [] e.op = "dh" -> DhV(n, e)
    [] e.op = "big" -> BigV(n, e)
    [] e.op = "domain" -> DomV(n, e)
    [] e.op = "named" -> NameV(n, e)
    [] OTHER -> <<>>

Init == i = 1 /\ viol = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ viol' = viol \o Verdict(i, Trace[i])
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
