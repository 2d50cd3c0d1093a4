------------------------------- MODULE KeysSys -------------------------------
(***************************************************************************)
(* Key collections and what is done with them (C14).  book is the ordered  *)
(* list of everything put into a collection, kept apart from what the      *)
(* collection holds.                                                       *)
(***************************************************************************)
EXTENDS KeySet
CONSTANTS Colls, Templates, MaxKeys, MaxCalls,
          Undo       \* fault: a failing set is taken back, together with what was there before
VARIABLES sets, book, next, hist, last
vars == <<sets, book, next, hist, last>>
Pick(from) == from
Init == sets = [c \in Colls |-> <<>>] /\ book = [c \in Colls |-> <<>>] /\ next = 1 /\ hist = <<>> /\ last = [kind |-> "none"]
Log(a) == hist' = Append(hist, a)
\* a template that is good becomes a key with a new identity
Item(t, id) == [good |-> t.good, id |-> id, kty |-> t.kty, kid |-> t.kid]
AddItems(c, items) ==
  LET g == Good(items) IN
  /\ book' = [book EXCEPT ![c] = @ \o g]
  /\ sets' = [sets EXCEPT ![c] = IF ~AllGood(items) /\ Undo THEN <<>> ELSE @ \o g]
  /\ next' = next + Len(items)
  /\ last' = [kind |-> IF AllGood(items) THEN "ok" ELSE "err"]
Total == Len(sets[CHOOSE c \in Colls : TRUE])
AddOne == \E c \in Pick(Colls), t \in Pick(DOMAIN Templates) :
            /\ next <= MaxKeys
            /\ AddItems(c, <<Item(Templates[t], next)>>)
            /\ Log([a |-> "add", c |-> c, items |-> <<t>>])
AddSet == \E c \in Pick(Colls), t, u \in Pick(DOMAIN Templates), how \in Pick({"dict", "jwks"}) :
            /\ next < MaxKeys
            /\ AddItems(c, <<Item(Templates[t], next), Item(Templates[u], next + 1)>>)
            /\ Log([a |-> how, c |-> c, items |-> <<t, u>>])
\* an object that is already in a collection, or in both
AppendOld == \E c, d \in Pick(Colls) : \E n \in Pick(DOMAIN sets[d]) :
            /\ Len(sets[c]) < MaxKeys
            /\ sets' = [sets EXCEPT ![c] = Append(@, sets[d][n])]
            /\ book' = [book EXCEPT ![c] = Append(@, sets[d][n])]
            /\ Log([a |-> "append", c |-> c, from |-> d, pos |-> n])
            /\ UNCHANGED next /\ last' = [kind |-> "ok"]
View == \E c \in Pick(Colls), w \in Pick({"iter", "len", "type", "kid", "kids", "types", "dict", "again"}) :
            /\ Log([a |-> "view", c |-> c, what |-> w]) /\ UNCHANGED <<sets, book, next>> /\ last' = [kind |-> "view"]
Next == Len(hist) < MaxCalls /\ (AddOne \/ AddSet \/ AppendOld \/ View)
Spec == Init /\ [][Next]_vars
Seen == <<sets, book, next, last, Len(hist)>>
-----------------------------------------------------------------------------
Faithful == \A c \in Colls : sets[c] = book[c]
RECURSIVE Sum(_)
Sum(f) == IF DOMAIN f = {} THEN 0 ELSE LET x == CHOOSE x \in DOMAIN f : TRUE IN f[x] + Sum([y \in DOMAIN f \ {x} |-> f[y]])
Views == \A c \in Colls :
  LET s == sets[c] g == Groups(s) IN
  /\ Sum([t \in DOMAIN g |-> Len(g[t])]) = Len(s)
  /\ \A t \in DOMAIN g : g[t] = OfType(s, t)
  /\ \A n \in DOMAIN s : \E m \in DOMAIN ByKid(s, s[n].kid) : ByKid(s, s[n].kid)[m] = s[n]
  /\ Len(WithKid(s)) + Len(ByKid(s, "")) = Len(s)
  /\ \A t \in Types(s) : OfType(s, t) # <<>>
=============================================================================
