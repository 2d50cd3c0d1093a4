------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* Where keys come from (C20): places - files and pages of a web - hold    *)
(* something, readers take a key, or a set of keys, from one.              *)
(*                                                                         *)
(* page: [kind, status, to, locked, key, items]                            *)
(*   kind "key"    a PEM file of an RSA key (key: [pub, priv]); locked: it *)
(*                 needs a passphrase                                      *)
(*        "cert"   an X.509 certificate of an RSA key                      *)
(*        "chain"  several, the first one that of the key                  *)
(*        "jwks"   a JWK Set; items: see KeySet                            *)
(*        "other"  anything else                                           *)
(*        "move"   go on at place `to'                                     *)
(*   status: what a server says (200 and anything for files)               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
LOCAL INSTANCE KeySet

Nothing == [kind |-> "other", status |-> 404, to |-> "", locked |-> FALSE, key |-> [pub |-> "", priv |-> FALSE], items |-> <<>>]
At(site, p) == IF p \in DOMAIN site THEN site[p] ELSE Nothing

\* the places visited and the page arrived at; who is sent round in
\* circles does not arrive
RECURSIVE Way(_, _, _)
Way(site, p, n) == IF n = 0 \/ At(site, p).kind # "move" THEN <<p>> ELSE <<p>> \o Way(site, At(site, p).to, n - 1)
Lost(site, p) == LET w == Way(site, p, 5) IN At(site, w[Len(w)]).kind = "move"
Arrive(site, p) == LET w == Way(site, p, 5) IN At(site, w[Len(w)])

KeyReaders  == {"import_rsa_key", "import_rsa_key_from_file", "rsa_load", "x509_rsa_load", "RSAKey.load"}
CertReaders == {"import_rsa_key", "import_rsa_key_from_file", "rsa_load", "x509_rsa_load", "pem_cert2rsa", "der_cert2rsa", "load_x509_cert"}
UrlReaders  == {"load_x509_cert"}
Passing     == {"import_rsa_key", "import_rsa_key_from_file"}     \* take a passphrase

\* what reading a page has to give: "key", "none" or "either"
Reading(reader, page, pass) ==
  IF reader \in UrlReaders /\ page.status # 200 THEN "none"
  ELSE CASE page.kind = "key"  -> IF page.locked THEN (IF reader \in Passing /\ pass = "right" THEN "key" ELSE "none")
                                  ELSE IF reader \in KeyReaders THEN (IF pass = "none" THEN "key" ELSE "either") ELSE "either"
         [] page.kind = "cert" -> IF reader \in CertReaders /\ pass = "none" THEN "key" ELSE "either"
         [] page.kind = "chain" -> IF reader \in UrlReaders THEN "key" ELSE "either"
         [] OTHER -> "none"

\* what loading a set from a page has to add, and whether it succeeds
Loading(page) == IF page.kind = "jwks" /\ page.status = 200 THEN [add |-> Good(page.items), ok |-> AllGood(page.items)]
                 ELSE [add |-> <<>>, ok |-> FALSE]
=============================================================================
