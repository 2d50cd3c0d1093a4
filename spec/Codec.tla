------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* base64url (RFC 4648 section 5, without padding as RFC 7515 uses it),    *)
(* integers, and the dotted token.  Octet strings and ASCII texts are      *)
(* sequences of numbers 0..255 (C16).                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Char(v) == IF v < 26 THEN 65 + v ELSE IF v < 52 THEN 71 + v ELSE IF v < 62 THEN v - 4 ELSE IF v = 62 THEN 45 ELSE 95
Alphabet == { Char(v) : v \in 0..63 }
Value == [ c \in Alphabet |-> CHOOSE v \in 0..63 : Char(v) = c ]

RECURSIVE Enc(_)
Enc(b) ==
  CASE Len(b) = 0 -> <<>>
    [] Len(b) = 1 -> <<Char(b[1] \div 4), Char((b[1] % 4) * 16)>>
    [] Len(b) = 2 -> <<Char(b[1] \div 4), Char((b[1] % 4) * 16 + b[2] \div 16), Char((b[2] % 16) * 4)>>
    [] OTHER -> <<Char(b[1] \div 4), Char((b[1] % 4) * 16 + b[2] \div 16), Char((b[2] % 16) * 4 + b[3] \div 64), Char(b[3] % 64)>>
                \o Enc(SubSeq(b, 4, Len(b)))

Pad == 61
RECURSIVE Strip(_)
Strip(t) == IF t # <<>> /\ t[Len(t)] = Pad THEN Strip(SubSeq(t, 1, Len(t) - 1)) ELSE t
Rep(x, k) == [j \in 1..k |-> x]

\* what can be decoded: the alphabet, a possible length, '=' only at the end
Decodable(t) == LET s == Strip(t) IN (\A j \in DOMAIN s : s[j] \in Alphabet) /\ Len(s) % 4 # 1
\* ... and whether the padding is none or the one RFC 4648 prescribes
Regular(t) == LET s == Strip(t) IN Len(t) - Len(s) \in {0, (-Len(s)) % 4}
\* one quantum of 2 to 4 characters; spare bits are dropped
Quantum(s) ==
  LET v == [j \in DOMAIN s |-> Value[s[j]]] IN
  CASE Len(s) = 2 -> <<v[1] * 4 + v[2] \div 16>>
    [] Len(s) = 3 -> <<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4>>
    [] Len(s) = 4 -> <<v[1] * 4 + v[2] \div 16, (v[2] % 16) * 16 + v[3] \div 4, (v[3] % 4) * 64 + v[4]>>
RECURSIVE DecS(_)
DecS(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) <= 4 THEN Quantum(s) ELSE Quantum(SubSeq(s, 1, 4)) \o DecS(SubSeq(s, 5, Len(s)))
Dec(t) == DecS(Strip(t))
\* the encoding of some octet string
Canonical(t) == Decodable(t) /\ Strip(t) = t /\ Enc(Dec(t)) = t

\* non-negative integers are their minimal big-endian octets, <<>> for 0
Minimal(b) == b = <<>> \/ b[1] # 0
RECURSIVE Lead(_)
Lead(b) == IF b # <<>> /\ b[1] = 0 THEN Lead(SubSeq(b, 2, Len(b))) ELSE b
IntText(b, width) == Enc(LET w == IF width > 1 THEN width ELSE 1 IN Rep(0, IF Len(b) < w THEN w - Len(b) ELSE 0) \o b)
IntOf(t) == Lead(Dec(t))

\* tokens
Dot == 46
RECURSIVE Split(_)
Split(t) ==
  IF \E j \in DOMAIN t : t[j] = Dot
  THEN LET j == CHOOSE j \in DOMAIN t : t[j] = Dot /\ \A k \in 1..(j - 1) : t[k] # Dot
       IN  <<SubSeq(t, 1, j - 1)>> \o Split(SubSeq(t, j + 1, Len(t)))
  ELSE <<t>>
RECURSIVE Join(_)
Join(ps) == IF Len(ps) = 1 THEN ps[1] ELSE ps[1] \o <<Dot>> \o Join(Tail(ps))
=============================================================================
