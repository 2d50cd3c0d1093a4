------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Recorded runs of the command-line tools against spec/Cli.tla (C22).     *)
(* site: what the places hold; made: the keys made so far.                 *)
(***************************************************************************)
EXTENDS Cli, TraceBase, SequencesExt
VARIABLES i, site, made, viol
vars == <<i, site, made, viol>>
C == {"C22"}

TokOf(j) == [j EXCEPT !.valid = ToSet(@)]
Sees(e) == ToSet(e.out.shown)           \* the names of what the printed text may stand for
\* a tool that fails prints nothing and changes nothing
Fails(n, e, why) == If(e.out.kind = "ok", V(n, C, why)) \o If(e.out.kind # "ok" /\ ~e.out.quiet, V(n, C, "a failing tool prints"))
Refused(n, e, bad, why) == IF bad THEN V(n, C, why) ELSE If(~e.out.quiet, V(n, C, "a failing tool prints"))
Message(e, strips) == IF e.via = "file" /\ strips THEN e.msg.stripped ELSE e.msg.asis

Form(t, parts) == t.parts = parts /\ t.hdr = "obj" /\ \A x \in DOMAIN t.b64 : t.b64[x] = "canon"

SignV(n, e, ks) ==
  LET rs == Signing(ks, e.a.alg, e.a.typ) t == TokOf(e.oj) m == Message(e, TRUE) IN
  IF e.out.kind # "ok" THEN Refused(n, e, ~\E r \in rs : r[1] = "err", "signing refused")
  ELSE If(~\E r \in rs : r[1] # "err", V(n, C, "signed without a fitting key"))
    \o If((\E r \in rs : r[1] # "err") /\ ~SignedRight(ks, e.a.alg, e.a.typ, t, e.hj), V(n, C, "not the signature, key or header asked for"))
    \o If(~Form(t, 3) \/ t.raw # m, V(n, C, "not the message given"))

\* pay: what is to come out again
SealV(n, e, ks, alg, enc, pay) ==
  LET r == Encrypting(ks, alg, enc) t == e.oe k == r[2] IN
  IF e.out.kind # "ok" THEN Refused(n, e, r[1] # "err", "encryption refused")
  ELSE IF r[1] = "err" THEN V(n, C, "encrypted without a fitting key or method")
  ELSE If(~Form(t, 5) \/ t.alg # alg \/ t.enc # enc \/ ~(\E x \in DOMAIN t.opens : t.opens[x].mat = k.mat /\ t.opens[x].pay = pay),
          V(n, C, "the right key does not open it"))
    \o If(Form(t, 5) /\ ~JE!HeaderOk(e.base, k, alg, e.he), V(n, C, "header"))

OpenV(n, e, ks) ==
  LET t == e.ie bars == DecryptBars(ks, t) IN
  IF e.out.kind = "ok"
  THEN If(bars # {}, V(n, C, "decrypted what must be refused")) \o If(bars = {} /\ Sees(e) \cap Decrypted(ks, t) = {}, V(n, C, "not the plaintext"))
  ELSE Refused(n, e, bars = {} /\ ~DecryptMay(ks, t) /\ e.intext, "decryption refused")

VerifyV(n, e, ks, t) ==
  LET bars == VerifyBars(ks, t) IN
  IF e.out.kind = "ok"
  THEN If(bars # {}, V(n, C, "verified what must be refused")) \o If(bars = {} /\ Sees(e) \cap JS!Returns(t) = {}, V(n, C, "not the payload"))
  ELSE Refused(n, e, bars = {} /\ ~VerifyMay(ks, t), "verification refused")

\* the inner token is looked at only when the outer one opens
OpenVerifyV(n, e, ks) ==
  LET bars == DecryptBars(ks, e.ie) IN
  IF bars # {} THEN Fails(n, e, "decrypted what must be refused")
  ELSE IF e.out.kind # "ok" /\ (DecryptMay(ks, e.ie) \/ ~e.intext) THEN <<>>
  ELSE VerifyV(n, e, ks, TokOf(e.ij))

UtilV(n, e) ==
  LET ks == UtilKeys(site, e.a) IN
  IF ~UtilGood(site, e.a) \/ ks = <<>> THEN Fails(n, e, "works without the keys")
  ELSE CASE e.mode = "s"  -> SignV(n, e, ks)
         [] e.mode = "se" -> IF e.out.kind = "ok" THEN SignV(n, e, ks) \o SealV(n, e, ks, e.a.encalg, e.a.encenc, e.inner)
                             ELSE Refused(n, e, (~\E r \in Signing(ks, e.a.alg, e.a.typ) : r[1] = "err") /\ Encrypting(ks, e.a.encalg, e.a.encenc)[1] # "err",
                                          "signing and encryption refused")
         [] e.mode = "e"  -> SealV(n, e, ks, e.a.encalg, e.a.encenc, Message(e, TRUE))
         [] e.mode = "d"  -> OpenV(n, e, ks)
         [] e.mode = "v"  -> VerifyV(n, e, ks, TokOf(e.ij))
         [] e.mode = "dv" -> OpenVerifyV(n, e, ks)

EncV(n, e) ==
  IF ~EncGood(site, e.a) THEN Fails(n, e, "encrypts without a key")
  ELSE SealV(n, e, EncKeys(site, e.a), e.a.encalg, e.a.encenc, Message(e, FALSE))
DecV(n, e) ==
  IF EncOpt(e.a) = "" THEN If(e.out.kind = "ok" /\ ~e.out.needs, V(n, C, "decrypts without a key"))      \* says so
  ELSE IF ~EncGood(site, e.a) THEN Fails(n, e, "decrypts without a key")
  ELSE OpenV(n, e, EncKeys(site, e.a))

GenV(n, e) ==
  IF e.out.kind # "ok" THEN V(n, C, "no key made")
  ELSE If(e.got.kty # "oct" \/ e.got.length # e.a.n \/ ~e.got.simple \/ e.got.kid # e.a.kid, V(n, C, "not the secret asked for"))
    \o If(e.a.n >= 12 /\ e.got.mat \in made, V(n, C, "a secret made before"))
CreateV(n, e) ==
  LET want == Created(e.got.key, e.a.name) IN
  IF e.out.kind # "ok" THEN If(e.sizeok, V(n, C, "no key made"))
  ELSE If(~e.got.key.priv \/ e.got.key.size # e.a.size, V(n, C, "not the key asked for"))
    \o If(\E p \in DOMAIN want : e.got.files[p] # want[p], V(n, C, "not what belongs into the file"))
    \o If(e.got.key.mat \in made, V(n, C, "a key made before"))
    \o If(e.got.private, V(n, C, "a public file with something private"))
ExportV(n, e) ==
  IF ~ExportGood(site, e.a.k) THEN Fails(n, e, "exports what is no key")
  ELSE IF e.out.kind # "ok" THEN V(n, C, "export refused")
  ELSE LET want == Exported(site, e.a.k, e.a.name) IN
       If(\E p \in DOMAIN want : e.got.files[p] # want[p], V(n, C, "not what belongs into the file"))
       \o If(e.got.private, V(n, C, "a public file with something private"))
PeekV(n, e) ==
  LET t == TokOf(e.ij) IN
  CASE e.type = "jwe" -> If(e.out.kind # "ok" \/ e.out.word # "jwe" \/ e.out.more, V(n, C, "peek"))
    [] e.type = "jws" -> If(e.out.kind # "ok" \/ e.out.word # "jws" \/ e.got.hdr # e.hj \/ e.got.pay # t.raw, V(n, C, "peek"))
    [] e.type = "not" -> If(e.out.kind = "ok" /\ e.out.word # "", V(n, C, "peek"))
    [] OTHER -> <<>>

\* files that may have changed
Mine(e) == CASE e.op = "create" -> Made(e.a.name) [] e.op = "export" -> {e.a.name \o ".jwk"} [] OTHER -> {}
FilesV(n, e) == If(~(ToSet(e.changed) \subseteq (IF e.out.kind = "ok" THEN Mine(e) ELSE {})), V(n, C, "other files changed"))
WebV(n, e) == If(e.net /\ ~((e.op = "util" /\ e.a.u # "") \/ (e.op \in {"enc", "dec"} /\ EncOpt(e.a) \in {"J", "X"})), V(n, C \cup {"C20"}, "something was fetched"))

Verdict(n, e) == (CASE e.op = "util" -> UtilV(n, e) [] e.op = "enc" -> EncV(n, e) [] e.op = "dec" -> DecV(n, e)
                    [] e.op = "gen" -> GenV(n, e) [] e.op = "create" -> CreateV(n, e) [] e.op = "export" -> ExportV(n, e)
                    [] e.op = "peek" -> PeekV(n, e)) \o FilesV(n, e) \o WebV(n, e)

Init == i = 1 /\ site = <<>> /\ made = {} /\ viol = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ LET e == Trace[i] IN
     CASE e.op = "reset" -> site' = <<>> /\ UNCHANGED <<made, viol>>
       [] e.op = "put" -> site' = (e.place :> e.what) @@ site /\ UNCHANGED <<made, viol>>
       [] OTHER -> /\ viol' = viol \o Verdict(i, e)
                   /\ site' = IF e.op = "create" /\ e.out.kind = "ok" THEN Created(e.got.key, e.a.name) @@ site
                              ELSE IF e.op = "export" /\ e.out.kind = "ok" /\ ExportGood(site, e.a.k) THEN Exported(site, e.a.k, e.a.name) @@ site ELSE site
                   /\ made' = IF e.op \in {"create", "gen"} /\ e.out.kind = "ok" THEN made \cup {IF e.op = "create" THEN e.got.key.mat ELSE e.got.mat} ELSE made
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
