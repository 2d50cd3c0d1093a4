----------------------------- MODULE FreshTrace -----------------------------
(***************************************************************************)
(* Are the values drawn in a recorded run fresh (C10)?                     *)
(*                                                                         *)
(* An event "draw" says that an operation used the value val of a kind     *)
(* (cek, iv, epk, nonce, ...): its name, its octets, whether it has the    *)
(* prescribed size and range, and whether the caller gave it.  The values come from *)
(* tokens and signatures, taken apart with the private keys, made in one   *)
(* process, in threads, in forked and in separate processes, with the      *)
(* pseudo-random generator seeded or put back in between.                  *)
(* An event "source" says how many octets an operation took from the       *)
(* system's source, and how many the values it made up are worth.          *)
(* used: what has been drawn, per kind.  At the end the first Sample draws *)
(* of every group are looked at, per octet position: how many values were  *)
(* seen there, and whether another position follows from it (had the same  *)
(* value again whenever this one had).                                     *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets
VARIABLES i, used, viol
vars == <<i, used, viol>>

Sample == 128
Distinct == 64      \* of 256 values in 128 draws, about 101 are expected; less than 64 has probability < 10^-15
Repeats == 16       \* of about 32; octets that are independent agree in all of them with probability < 256^-8
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

Step(n, e) ==
  [ v |-> If(~e.given /\ e.val \in Get(used, e.kind, {}), V(n, {"C10"}, "used before"))
       \o If(~e.size, V(n, {"C10", "C18"}, "wrong size"))
       \o If(~e.range, V(n, {"C10", "C17"}, "out of range")),
    u |-> (e.kind :> Get(used, e.kind, {}) \cup {e.val}) @@ used ]

-----------------------------------------------------------------------------
Draws == SelectSeq(Trace, LAMBDA e : e.op = "draw" /\ e.octets # <<>>)
Groups(d) == { d[k].group : k \in DOMAIN d }
Values(d, g) == LET s == SelectSeq(d, LAMBDA e : e.group = g)
                IN [k \in 1..(IF Len(s) < Sample THEN Len(s) ELSE Sample) |-> s[k].octets]
Positions(s) == DOMAIN s[1]
\* values taken from a small set of octets somewhere
Narrow(s) == \E p \in Positions(s) : Cardinality({ s[k][p] : k \in DOMAIN s }) < Distinct
\* octets that follow from another one
Again(s, p) == { ab \in (1..Sample) \X (1..Sample) : ab[1] < ab[2] /\ s[ab[1]][p] = s[ab[2]][p] }
Tied(s) == \E p \in Positions(s) :
             LET ab == Again(s, p) IN
             /\ Cardinality(ab) >= Repeats
             /\ \E q \in Positions(s) \ {p} : \A x \in ab : s[x[1]][q] = s[x[2]][q]
EndStep(n) ==
  LET d == Draws
      full == { g \in Groups(d) : Len(Values(d, g)) = Sample }
  IN If(\E g \in full : Narrow(Values(d, g)), V(n, {"C10"}, "values of little variety"))
     \o If(\E g \in full : Tied(Values(d, g)), V(n, {"C10"}, "octets that follow from others"))

Init == i = 1 /\ used = <<>> /\ viol = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     CASE e.op = "draw" -> LET s == Step(i, e) IN viol' = viol \o s.v /\ used' = s.u
       [] e.op = "source" ->
            viol' = viol \o If(0 < e.got /\ e.got < e.need, V(i, {"C10"}, "values made of less randomness")) /\ UNCHANGED used
       [] e.op = "end" -> viol' = viol \o EndStep(i) /\ UNCHANGED used
       [] OTHER -> UNCHANGED <<used, viol>>
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
