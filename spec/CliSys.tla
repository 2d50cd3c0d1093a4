------------------------------- MODULE CliSys --------------------------------
(***************************************************************************)
(* A user with a directory, and the tools (C22): key pairs are made and    *)
(* exported, messages signed, encrypted, and both; what the tools print is *)
(* passed on to the tools.                                                 *)
(***************************************************************************)
EXTENDS Cli
CONSTANTS Rsas, Secs, Names, Msgs, MaxCalls, MaxToks,
          Fault    \* "": the tools as they should be;  "export": the public JWK carries the private part;
                   \* "noverify": prints what it could not verify;  "lost": the decrypting tool reads the public part only
VARIABLES site, toks, signed, last, hist
vars == <<site, toks, signed, last, hist>>
Pick(from) == from
Key(mat, kty, priv) == [mat |-> mat, kty |-> kty, crv |-> "", kid |-> "", use |-> "", alg |-> "", priv |-> priv, size |-> IF kty = "RSA" THEN 2048 ELSE 0]
Init == site = <<>> /\ toks = <<>> /\ signed = {} /\ last = [kind |-> "none"] /\ hist = <<>>
Log(a) == hist' = Append(hist, a)
UsedMats == UNION { { site[p].keys[x].mat : x \in DOMAIN site[p].keys } : p \in DOMAIN site }
Quiet == last' = [kind |-> "none"]

Create == \E nm \in Pick(Names), m \in Pick(Rsas \ UsedMats) :
  LET k == Key(m, "RSA", TRUE) new == Created(k, nm) IN
  /\ site' = (IF Fault = "export" THEN (nm \o ".jwk" :> [kind |-> "jwk", keys |-> <<k>>]) @@ new ELSE new) @@ site
  /\ Log([a |-> "create", name |-> nm, mat |-> m]) /\ Quiet /\ UNCHANGED <<toks, signed>>
Export == \E p \in Pick({ q \in DOMAIN site : ExportGood(site, q) }), nm \in Pick(Names) :
  /\ site' = Exported(site, p, nm) @@ site
  /\ Log([a |-> "export", src |-> p, name |-> nm]) /\ Quiet /\ UNCHANGED <<toks, signed>>
Gen == \E nm \in Pick(Names), m \in Pick(Secs \ UsedMats) :
  /\ site' = (nm :> [kind |-> "jwks", keys |-> <<Key(m, "oct", TRUE)>>]) @@ site
  /\ Log([a |-> "gen", name |-> nm]) /\ Quiet /\ UNCHANGED <<toks, signed>>

Opts == { o \in {"r", "j", "J"} \X DOMAIN site : At(site, o[2]).kind \in (CASE o[1] = "r" -> {"pem"} [] o[1] = "j" -> {"jwk"} [] OTHER -> {"jwks"}) }
NoOpts == [r |-> "", k |-> <<>>, j |-> "", J |-> "", u |-> "", x |-> "", X |-> "", kid |-> ""]
A(o) == [NoOpts EXCEPT ![o[1]] = o[2]]
EOpts == { o \in {"r", "j"} \X DOMAIN site : At(site, o[2]).kind \in (IF o[1] = "r" THEN {"pem"} ELSE {"jwks"}) }
Blind(ks) == IF Fault = "lost" THEN [x \in DOMAIN ks |-> [ks[x] EXCEPT !.priv = FALSE]] ELSE ks

Canon(n) == [x \in 1..n |-> "canon"]
SigTok(r, m) == [ parts |-> 3, b64 |-> Canon(3), hdr |-> "obj", algk |-> "str", alg |-> JS!SigAlg(r), none |-> r[1] = "none", kid |-> "", crit |-> FALSE,
                  cty |-> "absent", valid |-> IF r[1] = "sig" THEN {r[2].mat} ELSE {}, raw |-> m, text |-> m, json |-> "", sigempty |-> r[1] = "none" ]
EncTok(k, alg, pay) == [ parts |-> 5, b64 |-> Canon(5), hdr |-> "obj", algk |-> "str", alg |-> alg, enck |-> "str", enc |-> "A128CBC-HS256", zip |-> "absent",
                         kid |-> "", crit |-> FALSE, epk |-> "absent", epkcrv |-> "", opens |-> <<[mat |-> k.mat, pay |-> pay]>>, cekpay |-> "", odd |-> FALSE ]
None == [kind |-> "none", jws |-> <<>>, jwe |-> <<>>, msg |-> "", mat |-> ""]
NextTok == "t" \o ToString(Len(toks) + 1)
AddTok(t) == toks' = Append(toks, t)

Sign == \E o \in Pick(Opts), m \in Pick(Msgs), al \in Pick({"RS256", "HS256"}) :
  LET rs == Signing(UtilKeys(site, A(o)), al, "") IN
  \E r \in rs : /\ r[1] = "sig" /\ Len(toks) < MaxToks
                /\ AddTok([None EXCEPT !.kind = "jws", !.jws = SigTok(r, m), !.msg = m, !.mat = r[2].mat])
                /\ signed' = signed \cup {<<r[2].mat, m>>}
                /\ Log([a |-> "sign", opt |-> o[1], place |-> o[2], msg |-> m, alg |-> al, tok |-> NextTok]) /\ Quiet /\ UNCHANGED site
Seal == \E u \in Pick({TRUE, FALSE}), m \in Pick(Msgs), al \in Pick({"RSA-OAEP", "A128KW"}) : \E o \in Pick(IF u THEN Opts ELSE EOpts) :
  LET r == Encrypting(IF u THEN UtilKeys(site, A(o)) ELSE EncKeys(site, A(o)), al, "A128CBC-HS256") IN
  /\ r[1] = "tok" /\ Len(toks) < MaxToks
  /\ AddTok([None EXCEPT !.kind = "jwe", !.jwe = EncTok(r[2], al, m), !.msg = m, !.mat = r[2].mat])
  /\ Log([a |-> IF u THEN "sealutil" ELSE "seal", opt |-> o[1], place |-> o[2], msg |-> m, alg |-> al, tok |-> NextTok]) /\ Quiet /\ UNCHANGED <<site, signed>>
Nest == \E o \in Pick(Opts), m \in Pick(Msgs), al \in Pick({"RS256", "HS256"}), ea \in Pick({"RSA-OAEP", "A128KW"}) :
  LET ks == UtilKeys(site, A(o)) e == Encrypting(ks, ea, "A128CBC-HS256") IN
  \E r \in Signing(ks, al, "") :
    /\ r[1] = "sig" /\ e[1] = "tok" /\ Len(toks) < MaxToks
    /\ AddTok([kind |-> "nest", jws |-> SigTok(r, m), jwe |-> EncTok(e[2], ea, NextTok), msg |-> m, mat |-> e[2].mat])
    /\ signed' = signed \cup {<<r[2].mat, m>>}
    /\ Log([a |-> "nest", opt |-> o[1], place |-> o[2], msg |-> m, alg |-> al, encalg |-> ea, tok |-> NextTok]) /\ Quiet /\ UNCHANGED site

\* what the tool prints, "" if it fails
PrintVerify(ks, t) == IF t.kind # "jws" THEN "" ELSE IF VerifyBars(ks, t.jws) = {} \/ Fault = "noverify" THEN t.msg ELSE ""
PrintOpen(ks, t) == IF t.kind = "jws" THEN "" ELSE LET b == Blind(ks) IN IF DecryptBars(b, t.jwe) = {} THEN CHOOSE x \in Decrypted(b, t.jwe) : TRUE ELSE ""
PrintBoth(ks, t) == IF t.kind # "nest" \/ PrintOpen(ks, t) = "" THEN "" ELSE PrintVerify(ks, [t EXCEPT !.kind = "jws"])
Use(what, o, x, ks, out, through) ==
  /\ last' = [kind |-> what, tok |-> x, keys |-> ks, out |-> out, verified |-> through]
  /\ Log([a |-> what, opt |-> o[1], place |-> o[2], tok |-> "t" \o ToString(x)]) /\ UNCHANGED <<site, toks, signed>>
Verify == \E o \in Pick(Opts), x \in Pick(DOMAIN toks) : LET ks == UtilKeys(site, A(o)) IN Use("verify", o, x, ks, PrintVerify(ks, toks[x]), TRUE)
OpenUtil == \E o \in Pick(Opts), x \in Pick(DOMAIN toks) : LET ks == UtilKeys(site, A(o)) IN Use("openutil", o, x, ks, PrintOpen(ks, toks[x]), FALSE)
OpenVerify == \E o \in Pick(Opts), x \in Pick(DOMAIN toks) : LET ks == UtilKeys(site, A(o)) IN Use("openverify", o, x, ks, PrintBoth(ks, toks[x]), TRUE)
Open == \E o \in Pick(EOpts), x \in Pick(DOMAIN toks) : LET ks == EncKeys(site, A(o)) IN Use("open", o, x, ks, PrintOpen(ks, toks[x]), FALSE)

Next == Len(hist) < MaxCalls /\ (Create \/ Export \/ Gen \/ Sign \/ Seal \/ Nest \/ Verify \/ OpenUtil \/ OpenVerify \/ Open)
Spec == Init /\ [][Next]_vars
View == <<site, toks, signed, last, Len(hist)>>
-----------------------------------------------------------------------------
Has(ks, mat, priv) == \E x \in DOMAIN ks : ks[x].mat = mat /\ (priv => ks[x].priv)
HasSuffix(p, s) == \E nm \in Names : p = nm \o s
\* nothing private leaves in the files that are meant to be passed on
NothingPrivate == \A p \in DOMAIN site : (HasSuffix(p, ".pub") \/ HasSuffix(p, ".jwk")) => \A x \in DOMAIN site[p].keys : ~site[p].keys[x].priv
\* what is verified was signed, by a key the user named
Authentic == (last.kind \in {"verify", "openverify"} /\ last.out # "") => \E x \in DOMAIN last.keys : <<last.keys[x].mat, last.out>> \in signed
\* who has the private key, and only they, get at what was encrypted
Secret == (last.kind \in {"open", "openutil", "openverify"} /\ last.out # "") => Has(last.keys, toks[last.tok].mat, TRUE)
Opens == (last.kind \in {"open", "openutil"} /\ toks[last.tok].kind # "jws" /\ Has(last.keys, toks[last.tok].mat, TRUE)) => last.out # ""
Verifies == (last.kind = "verify" /\ toks[last.tok].kind = "jws" /\ Has(last.keys, toks[last.tok].mat, FALSE)) => last.out = toks[last.tok].msg
=============================================================================
