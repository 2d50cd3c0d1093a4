------------------------------ MODULE CodecSys ------------------------------
(***************************************************************************)
(* The codec specification checked on itself: a sender packs parts, the    *)
(* adversary may change one character of what was sent, the receiver       *)
(* unpacks.                                                                *)
(***************************************************************************)
EXTENDS Codec
CONSTANTS Octets, MaxLen, MaxParts, Chars
VARIABLES parts, wire, changed, phase
vars == <<parts, wire, changed, phase>>

Strings == UNION { [1..n -> Octets] : n \in 0..MaxLen }
Init == /\ parts \in UNION { [1..n -> Strings] : n \in 1..MaxParts }
        /\ wire = <<>> /\ changed = FALSE /\ phase = "pack"
Pack == /\ phase = "pack" /\ phase' = "sent"
        /\ wire' = Join([j \in DOMAIN parts |-> Enc(parts[j])])
        /\ UNCHANGED <<parts, changed>>
Change == /\ phase = "sent" /\ ~changed
          /\ \E j \in DOMAIN wire, c \in Chars \cup {Dot} : c # wire[j] /\ wire' = [wire EXCEPT ![j] = c]
          /\ changed' = TRUE
          /\ UNCHANGED <<parts, phase>>
Next == Pack \/ Change
Spec == Init /\ [][Next]_vars

Segs == Split(wire)
Ok(ss) == \A j \in DOMAIN ss : Decodable(ss[j])
Got(ss) == [j \in DOMAIN ss |-> Dec(ss[j])]
Sent == phase = "sent"
\* packing and unpacking invert each other
RoundTrip == Sent /\ ~changed => Ok(Segs) /\ Got(Segs) = parts /\ \A j \in DOMAIN Segs : Canonical(Segs[j])
\* what was altered is refused, differs, or differs in spare bits only
Noticed == Sent /\ changed =>
  \/ ~Ok(Segs) \/ Got(Segs) # parts \/ \E j \in DOMAIN Segs : ~Canonical(Segs[j])
\* decoding is the only inverse: equal octets, equal canonical text
Lossless == Sent => \A j, k \in DOMAIN Segs :
  Canonical(Segs[j]) /\ Canonical(Segs[k]) /\ Dec(Segs[j]) = Dec(Segs[k]) => Segs[j] = Segs[k]
\* integers
Integers_ == \A j \in DOMAIN parts : LET b == Lead(parts[j]) IN
  /\ IntOf(IntText(b, 0)) = b /\ IntOf(IntText(b, MaxLen + 1)) = b
  /\ Len(Dec(IntText(b, MaxLen + 1))) = MaxLen + 1
=============================================================================
