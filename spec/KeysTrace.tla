----------------------------- MODULE KeysTrace -----------------------------
(***************************************************************************)
(* Recorded histories of key collections against spec/KeySet.tla (C14).    *)
(* sets: what each collection holds, a sequence of ids;  objs: the keys.   *)
(***************************************************************************)
EXTENDS TraceBase, KeySet
VARIABLES i, sets, objs, viol
vars == <<i, sets, objs, viol>>

Fields == {"kty", "crv", "pub", "priv", "kid", "use", "alg"}
Held(c) == [n \in DOMAIN sets[c] |-> objs[sets[c][n]] @@ [id |-> sets[c][n]]]
Ids(s) == [n \in DOMAIN s |-> s[n].id]
Add(e) == e.op \in {"add", "append", "wrap", "dict", "jwks", "url"}
Takes(e) == Good(e.items)

\* e.now: what each collection holds afterwards (ids), e.keys: the key
\* records of all objects that turned up
AddV(n, e) ==
  LET old == sets[e.c] want == Takes(e) now == e.now[e.c] fresh == SubSeq(now, Len(old) + 1, Len(now)) odd == \E x \in DOMAIN e.items : Odd(e.items[x]) IN
  If(Len(now) < Len(old) \/ SubSeq(now, 1, Len(old)) # old, V(n, {"C14"}, "what was there changed"))
  \o If(AllGood(e.items) /\ ~odd /\ e.out.kind # "ok", V(n, {"C14", "C11"}, "addition refused"))
  \o If(~AllGood(e.items) /\ e.out.kind = "ok" , V(n, {"C14", "C11"}, "bad addition not refused"))
  \o (IF odd THEN If(\/ e.out.kind = "ok" /\ Len(now) # Len(old) + Len(e.items)
                     \/ e.out.kind # "ok" /\ Len(now) - Len(old) \notin Prefixes(e.items)
                     \/ \E x \in DOMAIN fresh : ~Odd(e.items[x]) /\ \E m \in Fields : e.keys[fresh[x]][m] # e.items[x].key[m],
                     V(n, {"C14"}, "not the keys that were added"))
      ELSE IF Len(now) # Len(old) + Len(want) THEN V(n, {"C14"}, "not the keys that were added")
      ELSE If(\E x \in DOMAIN want : \/ e.op = "append" /\ fresh[x] # want[x].id
                                     \/ e.op # "append" /\ (fresh[x] \in DOMAIN objs \/ \E m \in Fields : e.keys[fresh[x]][m] # want[x].key[m]),
              V(n, {"C14"}, "not the keys that were added")))
Others(n, e) == If(\E c \in DOMAIN sets : (c # e.c \/ ~Add(e)) /\ e.now[c] # sets[c], V(n, {"C14"}, "another collection, or a view, changed"))
Shape(n, e) == If(\E o \in DOMAIN objs : \E m \in Fields : e.keys[o][m] # objs[o][m], V(n, {"C14", "C06"}, "a key changed"))

ViewV(n, e) ==
  LET s == Held(e.c)
      ok == CASE e.out.kind # "ok" -> FALSE
              [] e.what \in {"iter", "keys", "list"} -> e.out.r = sets[e.c]
              [] e.what = "len"   -> e.out.r = Len(s)
              [] e.what = "type"  -> e.out.r = Ids(OfType(s, e.arg))
              [] e.what = "kid"   -> e.out.r = Ids(ByKid(s, e.arg))
              [] e.what = "kids"  -> e.out.r = [x \in DOMAIN WithKid(s) |-> WithKid(s)[x].kid]
              [] e.what = "types" -> Len(e.out.r) = Cardinality(Types(s)) /\ { e.out.r[x] : x \in DOMAIN e.out.r } = Types(s)
              [] e.what = "dict"  -> /\ DOMAIN e.out.r = DOMAIN Groups(s)
                                     /\ \A t \in DOMAIN e.out.r : e.out.r[t] = Ids(Groups(s)[t])
              [] e.what = "again" -> \* dumped and loaded into a new collection: the public content
                   /\ Len(e.out.r) = Len(s)
                   /\ \A x \in DOMAIN s : /\ \A m \in Fields \ {"priv"} : e.out.r[x][m] = s[x][m]
                                          /\ e.out.r[x].priv = (s[x].kty = "oct")
  IN If(~ok, V(n, {"C14"} \cup (IF e.what = "again" THEN {"C11", "C12"} ELSE {}), "wrong view: " \o e.what))

Verdict(n, e) ==
  IF e.op \in {"reset", "new"} THEN <<>>
  ELSE Others(n, e) \o Shape(n, e) \o (IF Add(e) THEN AddV(n, e) ELSE IF e.op = "view" THEN ViewV(n, e) ELSE <<>>)

\* the specification goes on from what it demands, or, after a
\* disagreement, from what is there
Sets(e) == CASE e.op = "reset" -> <<>>
             [] e.op = "new"   -> (e.c :> <<>>) @@ sets
             [] OTHER          -> e.now
Objs(e) == IF e.op = "reset" THEN <<>> ELSE IF e.op = "new" THEN objs
           ELSE e.keys @@ objs

Init == i = 1 /\ sets = <<>> /\ objs = <<>> /\ viol = <<>>
\* an attribute assigned by the caller
Assign(e) == [objs EXCEPT ![e.obj][e.attr] = e.val]
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     IF e.op = "set" THEN objs' = Assign(e) /\ UNCHANGED <<sets, viol>>
     ELSE viol' = viol \o Verdict(i, e) \o NetV(i, e, e.op = "url") /\ sets' = Sets(e) /\ objs' = Objs(e)
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
