------------------------------- MODULE SrcSys -------------------------------
(***************************************************************************)
(* A web whose pages change, collections that load from it, and readers of *)
(* certificates that remember what they saw (C20).                         *)
(***************************************************************************)
EXTENDS Source
CONSTANTS Places, Pages, Colls, MaxCalls, MaxKeys,
          CacheBy      \* "content": what a page says decides;  "place": fault: an answer is remembered by where it came from
VARIABLES site, colls, book, cache, last, hist
vars == <<site, colls, book, cache, last, hist>>
LOCAL K == INSTANCE KeySet
Pick(from) == from
Init == site = <<>> /\ colls = [c \in Colls |-> <<>>] /\ book = [c \in Colls |-> <<>>] /\ cache = <<>> /\ hist = <<>> /\ last = [kind |-> "none"]
Log(a) == hist' = Append(hist, a)
Publish == \E p \in Pick(Places), g \in Pick(DOMAIN Pages) :
  /\ At(site, p) # Pages[g]
  /\ site' = (p :> Pages[g]) @@ site
  /\ last' = [kind |-> "none"] /\ Log([a |-> "publish", place |-> p, page |-> g]) /\ UNCHANGED <<colls, book, cache>>
Load == \E c \in Pick(Colls), p \in Pick(Places) :
  LET page == Arrive(site, p) l == Loading(page) IN
  /\ Len(colls[c]) + Len(l.add) <= MaxKeys
  /\ colls' = [colls EXCEPT ![c] = @ \o l.add]
  /\ book' = [book EXCEPT ![c] = @ \o [x \in DOMAIN l.add |-> [key |-> l.add[x].key, page |-> page]]]
  /\ last' = [kind |-> "load", ok |-> l.ok, page |-> page, before |-> colls[c], after |-> colls'[c]]
  /\ Log([a |-> "load", c |-> c, place |-> p]) /\ UNCHANGED <<site, cache>>
ReadCert == \E p \in Pick(Places) :
  LET page == Arrive(site, p)
      id == IF CacheBy = "place" THEN p ELSE ToString(page)
      old == id \in DOMAIN cache
      r == IF old /\ page.status = 200 THEN cache[id] ELSE IF Reading("load_x509_cert", page, "none") = "key" THEN page.key.pub ELSE ""
  IN /\ cache' = IF r # "" /\ ~old THEN (id :> r) @@ cache ELSE cache
     /\ last' = [kind |-> "read", page |-> page, got |-> r]
     /\ Log([a |-> "read", place |-> p]) /\ UNCHANGED <<site, colls, book>>
Next == Len(hist) < MaxCalls /\ (Publish \/ Load \/ ReadCert)
Spec == Init /\ [][Next]_vars
View == <<site, colls, book, cache, last, Len(hist)>>
-----------------------------------------------------------------------------
\* what is read is what is there now
Current == last.kind = "read" =>
  CASE Reading("load_x509_cert", last.page, "none") = "key"  -> last.got = last.page.key.pub
    [] Reading("load_x509_cert", last.page, "none") = "none" -> last.got = ""
    [] OTHER -> last.got \in {"", last.page.key.pub}
\* a collection holds what the pages said when it was loaded, and nothing of a page that is no set
Traced == \A c \in Colls : /\ Len(colls[c]) = Len(book[c])
                           /\ \A n \in DOMAIN colls[c] : /\ colls[c][n].key = book[c][n].key
                                                         /\ book[c][n].page.kind = "jwks" /\ book[c][n].page.status = 200
                                                         /\ \E x \in DOMAIN book[c][n].page.items : book[c][n].page.items[x].good /\ book[c][n].page.items[x].key = colls[c][n].key
Grows == last.kind = "load" => /\ SubSeq(last.after, 1, Len(last.before)) = last.before
                               /\ (last.page.kind # "jwks" \/ last.page.status # 200) => last.after = last.before /\ ~last.ok
=============================================================================
