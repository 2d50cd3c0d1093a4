------------------------------ MODULE PbkTrace ------------------------------
(***************************************************************************)
(* Recorded use of jwkest.PBKDF2 (C21).  A reader's event carries the      *)
(* stream the program Formats!Pbk makes of its passphrase, salt and count  *)
(* (hexadecimal digits); every read must give the next piece of it.        *)
(***************************************************************************)
EXTENDS TraceBase, Integers
VARIABLES i, objs, viol
vars == <<i, objs, viol>>
P == {"C21"}

Piece(s, from, n) == SubSeq(s, 2 * from + 1, 2 * (from + n))
Known(e) == e.o \in DOMAIN objs

NewV(n, e) ==
  IF e.valid THEN If(e.out.kind # "ok", V(n, P, "a passphrase and salt are refused"))
  ELSE If(e.out.kind = "ok", V(n, P, "a reader without passphrase, salt or count"))
ReadV(n, e) ==
  LET x == objs[e.o] IN
  IF ~Known(e) THEN <<>>
  ELSE IF x.closed THEN If(e.out.kind = "ok", V(n, P, "reads what is closed"))
  ELSE IF e.out.kind # "ok" THEN V(n, P, "a read fails")
  ELSE If(e.out.r # Piece(x.stream, x.pos, e.n), V(n, P, "not the next octets of the stream"))
       \o If(e.out.t # (IF e.hex THEN "str" ELSE "bytes"), V(n, P, "not octets or digits"))
CloseV(n, e) == If(Known(e) /\ e.out.kind # "ok", V(n, P, "a close fails"))

------------------------------------------------------------------------------
(* crypt: the salt is <<hashed?, count as written, salt, rest>>              *)
Allowed == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
            "0","1","2","3","4","5","6","7","8","9",".","/"}
At(s, k) == SubSeq(s, k, k)
Hex == "0123456789abcdef"
IsHex(s) == \A k \in 1..Len(s) : \E d \in 1..16 : At(Hex, d) = At(s, k)
Digit(c) == (CHOOSE d \in 1..16 : At(Hex, d) = c) - 1
RECURSIVE Value(_)
Value(s) == IF s = "" THEN 0 ELSE 16 * Value(SubSeq(s, 1, Len(s) - 1)) + Digit(At(s, Len(s)))
RECURSIVE Digits(_)
Digits(x) == IF x = 0 THEN "" ELSE Digits(x \div 16) \o At(Hex, (x % 16) + 1)

\* a count as it may be written in a hash: none, or hexadecimal without zeros before it
CountOk(s) == s = "" \/ (IsHex(s) /\ At(s, 1) # "0")
Count(e) == IF e.hashed THEN (IF e.count = "" THEN 400 ELSE Value(e.count))
            ELSE IF e.arg = -1 THEN 400 ELSE e.arg
Sound(e) == /\ \A k \in 1..Len(e.salt) : At(e.salt, k) \in Allowed
            /\ IF e.hashed THEN e.complete /\ CountOk(e.count) ELSE e.arg = -1 \/ e.arg > 0
Prefix(c) == "$p5k2$" \o (IF c = 400 THEN "" ELSE Digits(c)) \o "$"
CryptV(n, e) ==
  IF ~Sound(e) THEN If(e.out.kind = "ok", V(n, P, "crypt accepts a malformed salt"))
  ELSE IF e.out.kind # "ok" THEN V(n, P, "crypt fails")
  ELSE If(e.out.r # Prefix(Count(e)) \o e.salt \o "$" \o e.keys[ToString(Count(e))], V(n, P, "crypt gives another hash"))
\* a salt of crypt's own: e.salt is what it took
OwnV(n, e) == If(Len(e.salt) # 8 \/ e.again, V(n, P, "crypt's own salt")) \o CryptV(n, e)

Verdict(n, e) ==
  CASE e.op = "new" -> NewV(n, e)
    [] e.op = "read" -> ReadV(n, e)
    [] e.op = "close" -> CloseV(n, e)
    [] e.op = "crypt" -> CryptV(n, e)
    [] e.op = "own" -> OwnV(n, e)
    [] OTHER -> <<>>

After(e) ==
  CASE e.op = "new" /\ e.out.kind = "ok" /\ e.valid -> (e.o :> [stream |-> e.stream, pos |-> 0, closed |-> FALSE]) @@ objs
    [] e.op = "read" /\ Known(e) /\ e.out.kind = "ok" -> [objs EXCEPT ![e.o].pos = @ + e.n]
    [] e.op = "close" /\ Known(e) -> [objs EXCEPT ![e.o].closed = TRUE]
    [] e.op = "reset" -> <<>>
    [] OTHER -> objs

Init == i = 1 /\ objs = <<>> /\ viol = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ viol' = viol \o Verdict(i, Trace[i])
  /\ objs' = After(Trace[i])
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
