--------------------------------- MODULE Gf ---------------------------------
(***************************************************************************)
(* Multiplication in GF(2^128) as SP 800-38D section 6.3 defines it, and   *)
(* GHASH (section 6.4).  A block is 8 numbers of 16 bits, first bit first. *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, TLC
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
Two == <<32768, 16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1>>
Bit(x, j) == (x[(j \div 16) + 1] \div Two[(j % 16) + 1]) % 2
XorB(x, y) == TLCEval([k \in 1..8 |-> x[k] ^^ y[k]])
\* times the indeterminate: a shift to the right, reduced by
\* 1 + a + a^2 + a^7 + a^128 when a bit falls off
Shift(x) ==
  LET s == [k \in 1..8 |-> (x[k] \div 2) + (IF k > 1 THEN (x[k - 1] % 2) * 32768 ELSE 0)]
  IN  TLCEval(IF x[8] % 2 = 1 THEN [s EXCEPT ![1] = @ ^^ 57600] ELSE s)      \* E1 00
RECURSIVE MulFrom(_, _, _, _)
\* z[1] and v[1] are looked at so that TLC, which evaluates arguments late,
\* does not pile them up
MulFrom(z, v, y, j) == IF j = 128 \/ z[1] + v[1] < 0 THEN z ELSE MulFrom(IF Bit(y, j) = 1 THEN XorB(z, v) ELSE z, Shift(v), y, j + 1)
Times(x, y) == MulFrom(Zero, x, y, 0)
RECURSIVE Ghash(_, _, _)
Ghash(h, blocks, acc) == IF blocks = <<>> THEN acc ELSE Ghash(h, Tail(blocks), Times(XorB(acc, Head(blocks)), h))
=============================================================================
