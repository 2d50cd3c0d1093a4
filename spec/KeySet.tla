------------------------------- MODULE KeySet -------------------------------
(***************************************************************************)
(* A key collection is the sequence of the keys put into it (C14); the     *)
(* other operations are views of that sequence.  An entry is a record with *)
(* at least [id, kty, kid, ...]; ids are object identities.                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* spellings of a key type: [kty] ignores case, as_dict names the usual types in the usual way
Lower == ( "RSA" :> "rsa" @@ "rsa" :> "rsa" @@ "EC" :> "ec" @@ "ec" :> "ec" @@ "oct" :> "oct" @@ "OCT" :> "oct" @@ "foo" :> "foo" @@ "FOO" :> "foo" )
Usual == ( "RSA" :> "RSA" @@ "rsa" :> "RSA" @@ "EC" :> "EC" @@ "ec" :> "EC" @@ "oct" :> "oct" @@ "OCT" :> "oct" @@ "foo" :> "foo" @@ "FOO" :> "foo" )

\* only what is asked for in full: no key type is part of another
Small(t) == IF t \in DOMAIN Lower THEN Lower[t] ELSE t
OfType(s, kty)  == SelectSeq(s, LAMBDA k : Small(k.kty) = Small(kty))
ByKid(s, kid)   == SelectSeq(s, LAMBDA k : k.kid = kid)
WithKid(s)      == SelectSeq(s, LAMBDA k : k.kid # "")
Types(s)        == { s[n].kty : n \in DOMAIN s }
Groups(s)       == [ t \in { Usual[s[n].kty] : n \in DOMAIN s } |-> SelectSeq(s, LAMBDA k : Usual[k.kty] = t) ]

\* adding a set whose items are good up to the first bad one
RECURSIVE Good(_)
Good(items) == IF items = <<>> \/ ~Head(items).good THEN <<>> ELSE <<Head(items)>> \o Good(Tail(items))
\* an item may be odd: refused or taken in as well
Odd(it) == "odd" \in DOMAIN it
\* how many of the items may have been taken in when the addition was refused
Prefixes(items) == { n \in 0..(Len(items) - 1) : /\ ~items[n + 1].good \/ Odd(items[n + 1])
                                                 /\ \A x \in 1..n : items[x].good }
AllGood(items) == \A n \in DOMAIN items : items[n].good
=============================================================================
