------------------------------- MODULE PbkSys -------------------------------
(***************************************************************************)
(* Keys read from a passphrase (C21): an endless sequence of octets, the   *)
(* blocks of RFC 8018 one after the other, that readers take pieces of.    *)
(* Several readers of the same passphrase and of others are open at once;  *)
(* a piece may end anywhere in a block, be empty, or span blocks.          *)
(*                                                                         *)
(* The reader as it is built keeps the rest of its last block; Buffered    *)
(* says that nobody can tell.  Fault: "drop" forgets that rest, "share"    *)
(* keeps it in one place for all readers.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences
CONSTANTS Readers, Block, Most, Calls, Fault
VARIABLES buf, num, given, closed, calls
vars == <<buf, num, given, closed, calls>>

\* octet k of the stream of reader r: which block, and where in it
Octet(r, k) == <<r, ((k - 1) \div Block) + 1, ((k - 1) % Block) + 1>>
Stream(r, n) == [k \in 1..n |-> Octet(r, k)]
BlockOf(r, i) == [j \in 1..Block |-> <<r, i, j>>]

RECURSIVE Fill(_, _, _, _)
Fill(r, b, i, n) == IF Len(b) >= n THEN <<b, i>> ELSE Fill(r, b \o BlockOf(r, i + 1), i + 1, n)

Init == /\ buf = [r \in Readers |-> <<>>] /\ num = [r \in Readers |-> 0]
        /\ given = [r \in Readers |-> <<>>] /\ closed = {} /\ calls = 0

Read(r, n) ==
  /\ r \notin closed /\ calls < Calls
  /\ LET f == Fill(r, buf[r], num[r], n)
         rest == SubSeq(f[1], n + 1, Len(f[1]))
     IN /\ given' = [given EXCEPT ![r] = @ \o SubSeq(f[1], 1, n)]
        /\ num' = [num EXCEPT ![r] = f[2]]
        /\ buf' = CASE Fault = "drop" -> [buf EXCEPT ![r] = <<>>]
                    [] Fault = "share" -> [x \in Readers |-> rest]
                    [] OTHER -> [buf EXCEPT ![r] = rest]
  /\ calls' = calls + 1 /\ UNCHANGED closed
Close(r) == r \notin closed /\ closed' = closed \cup {r} /\ UNCHANGED <<buf, num, given, calls>>

Next == \E r \in Readers : Close(r) \/ \E n \in 0..Most : Read(r, n)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* what has been given is the beginning of the stream
OneStream == \A r \in Readers : given[r] = Stream(r, Len(given[r]))
\* and stays as it is once closed
Over == [][\A r \in Readers : r \in closed => r \in closed' /\ given'[r] = given[r]]_vars
=============================================================================
