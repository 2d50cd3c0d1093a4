----------------------------- MODULE FormatSys -----------------------------
(***************************************************************************)
(* Symbolic execution of the programs of Formats.tla.                      *)
(*                                                                         *)
(* A sender runs its program, an adversary may replace one transmitted     *)
(* part (or the receiver may hold another key), and the receiver runs its  *)
(* program.  Primitives are free constructors with the usual cancellation  *)
(* rules (decryption inverts encryption, ECDH commutes, a signature        *)
(* verifies only for what was signed).  Terms are interned in `tab`, so    *)
(* that equality of values is equality of indices.  Each program   *)
(* is one step.                                                            *)
(*                                                                         *)
(* Checked: what the receiver outputs is what the sender put in, and any   *)
(* replaced part, other algorithm or other key makes the receiver fail.    *)
(***************************************************************************)
EXTENDS Formats, FiniteSets, SequencesExt
CONSTANTS Scenarios   \* a set of <<kind, alg, enc, zip, raw>>

VARIABLES sc, tamper, phase, tab, env, failed
vars == <<sc, tamper, phase, tab, env, failed>>

(* Terms: <<constructor, sequence of term indices>>.  Index 0 is "failure". *)
Put(tb, t) == IF \E i \in DOMAIN tb : tb[i] = t THEN tb ELSE Append(tb, t)
Idx(tb, t) == CHOOSE i \in DOMAIN tb : tb[i] = t

IsF(tb, x, f) == x # 0 /\ tb[x][1] = f
Arg(tb, x, k) == tb[x][2][k]
SetSeq(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>

\* Result of applying operator f to the (interned) arguments: either an
\* existing index <<"i", n>>, a new term <<"t", term>>, or <<"fail">>.
Old(n) == <<"i", n>>
New(f, a) == <<"t", <<f, a>>>>
Fail == <<"fail">>

Undoes == ( "b64d" :> "b64u" @@ "inflate" :> "deflate" @@ "unpkcs7" :> "pkcs7"
          @@ "os2ip" :> "i2osp" @@ "unpadz" :> "padz" )
KeyedInverse == ( "ecbdec" :> "ecb" @@ "cbcdec" :> "cbcenc" )
RsaInverse == ( "rsa15dec" :> "rsa15enc" @@ "oaep1dec" :> "oaep1enc" @@ "oaep256dec" :> "oaep256enc" )

Apply(tb, f, a) ==
  CASE f = "id" -> Old(a[1])
    [] f \in {"lenis"} -> Old(a[1])             \* lengths are concrete matters
    [] f = "eq" -> IF a[1] = a[2] THEN Old(a[1]) ELSE Fail
    [] f \in DOMAIN Undoes /\ IsF(tb, a[1], Undoes[f]) -> Old(Arg(tb, a[1], 1))
    [] f \in DOMAIN KeyedInverse /\ IsF(tb, a[Len(a)], KeyedInverse[f])
         /\ SubSeq(tb[a[Len(a)]][2], 1, Len(a) - 1) = SubSeq(a, 1, Len(a) - 1)
         -> Old(Arg(tb, a[Len(a)], Len(a)))
    [] f = "ctr" /\ IsF(tb, a[3], "ctr") /\ Arg(tb, a[3], 1) = a[1] /\ Arg(tb, a[3], 2) = a[2]
         -> Old(Arg(tb, a[3], 3))
    [] f \in DOMAIN RsaInverse /\ IsF(tb, a[2], RsaInverse[f]) /\ IsF(tb, Arg(tb, a[2], 1), "pub")
         /\ Arg(tb, Arg(tb, a[2], 1), 1) = a[1] -> Old(Arg(tb, a[2], 2))
    [] f \in DOMAIN RsaInverse -> Fail
    [] f = "ecdh" -> IF IsF(tb, a[2], "pub") THEN New("dh", SetSeq(a[1], Arg(tb, a[2], 1)))
                     ELSE New("dh0", a)
    [] f = "xor" /\ IsF(tb, a[1], "xor") /\ Arg(tb, a[1], 2) = a[2] -> Old(Arg(tb, a[1], 1))
    [] f = "blk" /\ IsF(tb, a[1], "cat8") ->
         LET n == CHOOSE k \in 0..20 : tb[a[2]][1] = N(k) IN Old(Arg(tb, a[1], n + 1))
    [] f = "cat8" /\ (\E x \in DOMAIN tb : \A k \in DOMAIN a :
                        IsF(tb, a[k], "blk") /\ Arg(tb, a[k], 1) = x
                        /\ tb[Arg(tb, a[k], 2)][1] = N(k - 1))
         -> Old(Arg(tb, a[1], 1))
    [] f \in {"take", "drop"} /\ IsF(tb, a[1], "cat") /\ Len(tb[a[1]][2]) = 2
         /\ IsF(tb, Arg(tb, a[1], 1), "i2osp")
         -> Old(Arg(tb, a[1], IF f = "take" THEN 1 ELSE 2))
    [] f = "rsa15sign" -> New("rsasig", a)
    [] f = "psssign"   -> New("psssig", a)
    [] f = "ecdsa"     -> New("ecsig", a)
    [] f = "fst"       -> New("r", a)
    [] f = "snd"       -> New("s", a)
    [] f = "rsa15ok" -> IF IsF(tb, a[4], "rsasig") /\ Arg(tb, a[4], 1) = a[1] /\ Arg(tb, a[4], 3) = a[3]
                           /\ IsF(tb, a[2], "pub") /\ Arg(tb, a[2], 1) = Arg(tb, a[4], 2)
                        THEN Old(a[1]) ELSE Fail
    [] f = "pssok" -> IF IsF(tb, a[4], "psssig") /\ Arg(tb, a[4], 1) = a[1] /\ Arg(tb, a[4], 3) = a[3]
                           /\ IsF(tb, a[2], "pub") /\ Arg(tb, a[2], 1) = Arg(tb, a[4], 2)
                        THEN Old(a[1]) ELSE Fail
    [] f = "ecdsaok" -> IF /\ IsF(tb, a[4], "r") /\ IsF(tb, a[5], "s")
                           /\ Arg(tb, a[4], 1) = Arg(tb, a[5], 1)
                           /\ LET e == Arg(tb, a[4], 1) IN
                              /\ IsF(tb, e, "ecsig") /\ Arg(tb, e, 1) = a[1] /\ Arg(tb, e, 3) = a[3]
                              /\ IsF(tb, a[2], "pub") /\ Arg(tb, a[2], 1) = Arg(tb, e, 2)
                        THEN Old(a[1]) ELSE Fail
    [] OTHER -> New(f, a)

-----------------------------------------------------------------------------
Atom(s) == <<s, <<>>>>

\* scenarios "kw" and "kwpad": key wrap alone, of so many blocks or octets
Kw == {"kw", "kwpad"}
Given == S("kek", "id", <<"key">>)
Size(s) == CHOOSE m \in 1..100 : ToString(m) = s[2]
SendProg(s) == IF s[1] = "kw" THEN Given \o KeyWrap(Size(s)) ELSE IF s[1] = "kwpad" THEN Given \o KeyWrapPad(Size(s)) ELSE
               IF s[1] = "jws" THEN JwsSign(s[2]) ELSE JweEncrypt(s[2], s[3], s[4], s[5])
RecvProg(s) == IF s[1] = "kw" THEN Given \o KeyUnwrap(Size(s)) ELSE IF s[1] = "kwpad" THEN Given \o KeyUnwrapPad(Size(s)) ELSE
               IF s[1] = "jws" THEN JwsVerify(s[2]) ELSE JweDecrypt(s[2], s[3], s[4], s[5])
Wire(s) == IF s[1] \in Kw THEN <<"c">> ELSE IF s[1] = "jws" THEN <<"h64", "p64", "s64">> ELSE <<"h64", "e64", "i64", "c64", "t64">>
Out(s) == IF s[1] = "kw" THEN "p" ELSE IF s[1] = "kwpad" THEN "p0" ELSE IF s[1] = "jws" THEN "pl" ELSE "msg"

Asym(s) == IF s[1] \in Kw THEN FALSE ELSE IF s[1] = "jws" THEN Family[s[2]] # "HS" ELSE ~(s[2] \in KwAlgs)
\* Who holds which key: atoms 1..; "k" is the receiver's (private or shared)
\* key, "k2" another one, "e" the ephemeral one.
Tab0 == << Atom("hdr"), Atom("text"), Atom("k"), Atom("cek0"), Atom("iv0"), Atom("e"),
           Atom("apu"), Atom("apv"), Atom("k2"), Atom("evil"),
           <<"pub", <<3>>>>, <<"pub", <<6>>>>, <<"pub", <<9>>>>, <<"pub", <<10>>>>,
           <<"b64u", <<10>>>> >>
SendEnv(s) ==
  IF s[1] \in Kw THEN ("p" :> 2 @@ "p0" :> 2 @@ "key" :> 3) ELSE
  IF s[1] = "jws"
  THEN ("hdr" :> 1 @@ "pl" :> 2 @@ "key" :> 3)
  ELSE ("hdr" :> 1 @@ "msg" :> 2 @@ "key" :> (IF Asym(s) THEN 11 ELSE 3) @@ "cek" :> 4
        @@ "iv" :> 5 @@ "epriv" :> 6 @@ "apu" :> 7 @@ "apv" :> 8)
RecvKey(s, other) ==
  LET k == IF other THEN 9 ELSE 3 IN
  IF s[1] = "jws" /\ Asym(s) THEN (IF other THEN 13 ELSE 11) ELSE k

\* What the adversary does: nothing, replace part n of the token, another
\* key at the receiver, or (ECDH-ES) another ephemeral public key / apu / apv.
Tampers(s) ==
  {<<"none", 0>>, <<"key", 0>>} \cup {<<"part", n>> : n \in DOMAIN Wire(s)}
  \cup (IF s[1] = "jwe" /\ s[2] \in EcAlgs THEN {<<"epk", 0>>, <<"apu", 0>>, <<"apv", 0>>} ELSE {})

Init ==
  /\ sc \in Scenarios
  /\ tamper \in Tampers(sc)
  /\ phase = "send" /\ failed = FALSE
  /\ tab = Tab0
  /\ env = SendEnv(sc)

\* intern the literals among the arguments
Intern(acc, args) ==
  FoldLeft(LAMBDA m, x :
             IF x \in DOMAIN acc.env THEN [m EXCEPT !.args = Append(@, acc.env[x])]
             ELSE LET tb == Put(m.tab, Atom(x)) IN
                  [tab |-> tb, args |-> Append(m.args, Idx(tb, Atom(x)))],
           [tab |-> acc.tab, args |-> <<>>], args)

\* one instruction; after a failure nothing happens any more
Instr(acc, ins) ==
  IF acc.failed THEN acc
  ELSE LET ia  == Intern(acc, SubSeq(ins, 3, Len(ins)))
           res == Apply(ia.tab, ins[2], ia.args)
       IN CASE res[1] = "fail" -> [acc EXCEPT !.failed = TRUE]
            [] res[1] = "i" -> [acc EXCEPT !.env = (ins[1] :> res[2]) @@ @, !.tab = ia.tab]
            [] res[1] = "t" -> LET tb == Put(ia.tab, res[2]) IN
                 [acc EXCEPT !.env = (ins[1] :> Idx(tb, res[2])) @@ @, !.tab = tb]

Run(prog) == FoldLeft(Instr, [tab |-> tab, env |-> env, failed |-> failed], prog)

Step(from, prog, to) ==
  /\ phase = from
  /\ LET r == Run(prog) IN tab' = r.tab /\ env' = r.env /\ failed' = r.failed
  /\ phase' = to
  /\ UNCHANGED <<sc, tamper>>

Send    == Step("send", SendProg(sc), "sent")
Receive == Step("recv", RecvProg(sc), "done")

Transmit ==
  /\ phase = "sent"
  /\ phase' = "recv"
  /\ LET w == Wire(sc)
         got == [n \in DOMAIN w |-> IF tamper = <<"part", n>> THEN 15 ELSE env[w[n]]]
         parts == [x \in {w[n] : n \in DOMAIN w} |-> got[CHOOSE n \in DOMAIN w : w[n] = x]]
     IN env' = parts @@ ("key" :> RecvKey(sc, tamper[1] = "key")
                     @@ "epub" :> (IF tamper[1] = "epk" THEN 14 ELSE 12)
                     @@ "apu" :> (IF tamper[1] = "apu" THEN 10 ELSE 7)
                     @@ "apv" :> (IF tamper[1] = "apv" THEN 10 ELSE 8))
  /\ UNCHANGED <<sc, tamper, tab, failed>>

Done == phase = "done"

Next == Send \/ Transmit \/ Receive \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* C02, C07: an honest token yields exactly what was put in
RoundTrip == (Done /\ tamper[1] = "none") => (~failed /\ env[Out(sc)] = 2)
\* C01, C08: any replaced part or other key is noticed.  (The encrypted key
\* of a direct agreement is empty; the receiver checks that by its length.)
Noticed == (Done /\ tamper[1] # "none" /\ ~(sc[1] = "jwe" /\ sc[2] = "ECDH-ES" /\ tamper = <<"part", 2>>))
              => failed
\* senders never get stuck
SenderOk == phase = "sent" => ~failed
=============================================================================
