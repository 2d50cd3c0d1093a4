------------------------------ MODULE SrcTrace ------------------------------
(***************************************************************************)
(* Recorded readings of keys from files, certificates and a web against    *)
(* spec/Source.tla (C20).  site: what the places hold, as published;       *)
(* colls: what the collections hold.                                       *)
(***************************************************************************)
EXTENDS TraceBase, Source
VARIABLES i, site, colls, viol
vars == <<i, site, colls, viol>>
Fields == {"kty", "crv", "pub", "priv", "kid", "use", "alg"}

\* a TLS server whose certificate nobody vouches for is not spoken to
Trusted(e) == (~e.tls \/ e.verify # "default") /\ ~e.closed
HitsOk(e, web) == IF web /\ Trusted(e) THEN Lost(site, e.place) \/ e.hits = Way(site, e.place, 5) ELSE e.hits = <<>>

ReadV(n, e) ==
  LET web == e.reader \in UrlReaders
      page == IF web THEN Arrive(site, e.place) ELSE At(site, e.place)
      want == IF web /\ ~Trusted(e) THEN "none" ELSE Reading(e.reader, page, e.pass)
      ok == e.out.kind = "ok"
  IN If(want = "key" /\ ~ok, V(n, {"C20"}, "a good key is not read"))
  \o If(want = "none" /\ ok, V(n, {"C20"}, IF web /\ ~Trusted(e) THEN "read from a server that is not trusted" ELSE "a key where there is none"))
  \o If(ok /\ page.kind \in {"key", "cert", "chain"} /\ (e.out.key.pub # page.key.pub \/ e.out.key.priv # page.key.priv), V(n, {"C20"}, "not the key that is there"))
  \o If(~HitsOk(e, web), V(n, {"C20"}, "other places visited"))
  \o NetV(n, e, web)

LoadV(n, e) ==
  LET old == colls[e.c]
      page == Arrive(site, e.place)
      want == IF Trusted(e) THEN Loading(page) ELSE [add |-> <<>>, ok |-> FALSE]
      now == e.now
  IN If(Len(now) < Len(old) \/ \E x \in DOMAIN old : now[x] # old[x], V(n, {"C20", "C14"}, "what was there changed"))
  \o If(want.ok /\ e.out.kind # "ok", V(n, {"C20", "C14"}, "a good set is refused"))
  \o If(~want.ok /\ e.out.kind = "ok", V(n, {"C20", "C14"}, IF Trusted(e) THEN "a bad set is not refused" ELSE "read from a server that is not trusted"))
  \o (IF Len(now) # Len(old) + Len(want.add) \/ \E x \in DOMAIN want.add : \E m \in Fields : now[Len(old) + x][m] # want.add[x].key[m]
      THEN If(e.fn = "coll" \/ want.ok, V(n, {"C20", "C14"}, "not the keys that are there")) ELSE <<>>)
  \o If(~HitsOk(e, TRUE), V(n, {"C20"}, "other places visited"))

Verdict(n, e) == CASE e.op = "read" -> ReadV(n, e) [] e.op = "load" -> LoadV(n, e)
                   [] e.op = "eq" -> If(e.out.kind # "ok" \/ e.out.eq # (e.a = e.b), V(n, {"C20"}, "native keys compared wrongly"))
                   [] e.op = "wrap" -> If(e.out.kind # "ok" \/ e.out.keys # e.items, V(n, {"C20"}, "not the keys that were given"))
                   [] OTHER -> <<>>

Init == i = 1 /\ site = <<>> /\ colls = <<>> /\ viol = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     /\ viol' = viol \o Verdict(i, e)
     /\ site' = IF e.op = "reset" THEN <<>> ELSE IF e.op = "publish" THEN (e.place :> e.page) @@ site ELSE site
     /\ colls' = IF e.op = "reset" THEN <<>> ELSE IF e.op = "new" THEN (e.c :> <<>>) @@ colls
                 ELSE IF e.op = "load" /\ e.fn = "coll" THEN [colls EXCEPT ![e.c] = e.now] ELSE colls
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
