------------------------------ MODULE FreshSys ------------------------------
(***************************************************************************)
(* Where random values come from (C10).                                    *)
(*                                                                         *)
(* Every process has a pseudo-random generator (Python's random module)    *)
(* whose state anybody in the process may seed, save and restore, and      *)
(* which a fork copies; the system source (Draws from the operating        *)
(* system) gives values that never repeat.  Source says which of the two   *)
(* the operations draw from, and Keep whether an object keeps what it drew *)
(* for its next message; a "stretched" value is made of fewer octets of    *)
(* the system source than it has itself (each octet of the source is       *)
(* counted in sys).  With the system source and nothing kept, no value is  *)
(* used twice, none can be foretold from generator states, and none is     *)
(* worth less than its size; with anything else TLC finds a history in     *)
(* which one is.                                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Procs, Seeds, MaxDraws, MaxActs, Source, Keep

VARIABLES alive, prng, saved, sys, kept, drawn, acts
vars == <<alive, prng, saved, sys, kept, drawn, acts>>

\* a generator's state: what it was seeded with and how often it was asked
Init == /\ alive = {CHOOSE p \in Procs : TRUE}
        /\ prng = [p \in Procs |-> <<"boot", p, 0>>]
        /\ saved = [p \in Procs |-> <<>>]
        /\ sys = 0
        /\ kept = [p \in Procs |-> <<>>]
        /\ drawn = <<>>
        /\ acts = 0
Size == 2     \* of every value, in octets
Tick == acts < MaxActs /\ acts' = acts + 1

Seed(p, s) == /\ prng' = [prng EXCEPT ![p] = <<"seed", s, 0>>]
              /\ UNCHANGED <<alive, saved, sys, kept, drawn>>
Save(p) == /\ saved' = [saved EXCEPT ![p] = prng[p]]
           /\ UNCHANGED <<alive, prng, sys, kept, drawn>>
Restore(p) == /\ saved[p] # <<>>
              /\ prng' = [prng EXCEPT ![p] = saved[p]]
              /\ UNCHANGED <<alive, saved, sys, kept, drawn>>
Fork(p, q) == /\ q \notin alive
              /\ alive' = alive \cup {q}
              /\ prng' = [prng EXCEPT ![q] = prng[p]]
              /\ saved' = [saved EXCEPT ![q] = saved[p]]
              /\ kept' = [kept EXCEPT ![q] = kept[p]]
              /\ UNCHANGED <<sys, drawn>>
\* a message needs a value
Message(p, new) ==
  /\ Len(drawn) < MaxDraws
  /\ IF Keep /\ kept[p] # <<>> /\ ~new
     THEN drawn' = Append(drawn, kept[p]) /\ UNCHANGED <<prng, sys, kept>>
     ELSE IF Source # "prng"
     THEN LET n == IF Source = "system" THEN Size ELSE Size - 1
              v == <<"sys", sys, n>> IN
          /\ drawn' = Append(drawn, v) /\ sys' = sys + n
          /\ kept' = [kept EXCEPT ![p] = v] /\ UNCHANGED prng
     ELSE /\ drawn' = Append(drawn, prng[p])
          /\ prng' = [prng EXCEPT ![p][3] = @ + 1]
          /\ kept' = [kept EXCEPT ![p] = prng[p]] /\ UNCHANGED sys
  /\ UNCHANGED <<alive, saved>>
Next == Tick /\ \E p \in alive :
  \/ \E s \in Seeds : Seed(p, s)
  \/ Save(p) \/ Restore(p)
  \/ \E q \in Procs : Fork(p, q)
  \/ \E new \in BOOLEAN : Message(p, new)
Spec == Init /\ [][Next]_vars

Unique == \A m, n \in DOMAIN drawn : m # n => drawn[m] # drawn[n]
Unpredictable == \A n \in DOMAIN drawn : drawn[n][1] = "sys"
Enough == \A n \in DOMAIN drawn : drawn[n][1] = "sys" => drawn[n][3] >= Size
=============================================================================
