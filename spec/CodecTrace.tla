---------------------------- MODULE CodecTrace ----------------------------
(***************************************************************************)
(* Recorded calls of the codecs and of JWT against spec/Codec.tla (C16).   *)
(* JSON is read by the harness: a "j" field is the canonical form of the   *)
(* JSON value that octets are, "" if they are none.                        *)
(***************************************************************************)
EXTENDS TraceBase, Codec
VARIABLES i, viol
vars == <<i, viol>>
C16 == {"C16"}

EncV(n, e) == If(e.out.kind # "ok" \/ e.out.r # Enc(e.x), V(n, C16, "not the base64url encoding"))
\* b64d and whatever decodes through it
DecV(n, e) ==
  IF ~Decodable(e.x) THEN If(e.out.kind = "ok", V(n, C16, "decodes what is not base64url"))
                       \o If(e.out.kind # "ok" /\ ~e.out.syntax, V(n, C16, "not reported as bad syntax"))
  ELSE IF e.out.kind = "ok" THEN If(e.out.r # Dec(e.x), V(n, C16, "not what was encoded"))
  ELSE If(Regular(e.x) \/ ~e.out.syntax, V(n, C16, "base64url is refused"))
PadV(n, e) ==
  IF Len(e.x) % 4 = 1 THEN If(e.out.kind = "ok" \/ ~e.out.syntax, V(n, C16, "impossible length accepted"))
  ELSE If(e.out.kind # "ok" \/ e.out.r # e.x \o Rep(Pad, (-Len(e.x)) % 4), V(n, C16, "wrong padding"))
\* texts through UTF-8; u says that the decoded octets are UTF-8
TextDecV(n, e) == IF ~e.u THEN If(e.out.kind = "ok", V(n, C16, "no text decoded as text")) ELSE DecV(n, e)
L2bV(n, e) == If(e.out.kind # "ok" \/ e.out.r # IntText(e.x, e.width), V(n, {"C16", "C11"}, "not the integer's text"))
B2lV(n, e) ==
  IF Canonical(e.x) /\ e.x # <<>> THEN If(e.out.kind # "ok" \/ e.out.r # IntOf(e.x), V(n, {"C16", "C11"}, "not the integer"))
  ELSE IF e.strict THEN If(e.out.kind = "ok" /\ \E c \in {43, 47, 61} : c \in {e.x[j] : j \in DOMAIN e.x}, V(n, {"C16", "C11"}, "not base64url"))
  ELSE <<>>
SameV(n, e) == If(e.out.kind # "ok" \/ e.out.r # e.want, V(n, C16, "not the conversion"))
EqualV(n, e) == If(e.out.kind # "ok" \/ e.out.r # (e.x = e.y), V(n, {"C16", "C01"}, "not a comparison"))

------------------------------------------------------------------------------
(* Tokens                                                                   *)
PartOk(want, seg, j) == IF want.kind = "json" THEN j = want.j ELSE Dec(seg) = want.x
PackV(n, e) ==
  IF e.out.kind # "ok" THEN V(n, C16, "cannot be packed")
  ELSE LET ss == Split(e.out.r) IN
       IF Len(ss) # Len(e.parts) + 1 \/ \E j \in DOMAIN ss : ~Canonical(ss[j]) THEN V(n, C16, "not a token")
       ELSE If(e.out.js[1] # e.headers, V(n, {"C16", "C02", "C07"}, "not the headers"))
         \o If(\E j \in DOMAIN e.parts : ~PartOk(e.parts[j], ss[j + 1], e.out.js[j + 1]), V(n, C16, "not the parts"))
\* e.hj: the header as JSON
UnpackV(n, e) ==
  LET ss == Split(e.x) IN
  IF Len(ss) < 2 \/ \E j \in DOMAIN ss : ~Decodable(ss[j])
  THEN If(e.out.kind = "ok", V(n, {"C16", "C01", "C08"}, "unpacks no token")) \o If(e.out.kind # "ok" /\ ~e.out.syntax, V(n, C16, "not reported as bad syntax"))
  ELSE IF e.hj = "" THEN If(e.out.kind = "ok", V(n, C16, "a header that is no JSON"))
  ELSE IF e.out.kind # "ok" THEN If(\A j \in DOMAIN ss : Regular(ss[j]), V(n, C16, "a token is refused"))
  ELSE If(e.out.b64 # ss, V(n, {"C16", "C01"}, "not the parts"))
    \o If(e.out.parts # [j \in DOMAIN ss |-> Dec(ss[j])], V(n, C16, "not the octets"))
    \o If(e.out.headers # e.hj, V(n, {"C16", "C03"}, "not the headers"))
\* pack() of what was unpacked; what the accessors say
RepackV(n, e) == If(e.out.kind # "ok" \/ e.out.r # e.x, V(n, C16, "not the token again"))
AccessV(n, e) ==
  LET ss == Split(e.x) ps == [j \in DOMAIN ss |-> Dec(ss[j])] IN
  If(e.out.kind # "ok" \/
     CASE e.name = "len" -> e.out.r # Len(ss)
       [] e.name = "valid" -> e.out.r # (Len(ss) = 3)
       [] e.name = "sign_input" -> e.out.r # ss[1] \o <<Dot>> \o ss[2]
       [] e.enc -> e.out.r # ss[e.at]
       [] OTHER -> e.out.r # ps[e.at],
     V(n, {"C16", "C01", "C08"}, "not the part named"))
\* the payload as text (tx) or as the JSON value it is (j)
PayloadV(n, e) ==
  LET want == IF (~e.cty \/ e.jwt) /\ e.j # "" THEN e.j ELSE e.tx IN
  If(e.out.kind # "ok" \/ e.out.r # want, V(n, C16, "not the payload"))

Verdict(n, e) ==
  CASE e.op \in {"b64e", "b64e_text"} -> EncV(n, e)
    [] e.op = "b64d" -> DecV(n, e)
    [] e.op = "b64d_text" -> TextDecV(n, e)
    [] e.op = "pad" -> PadV(n, e)
    [] e.op = "l2b" -> L2bV(n, e)
    [] e.op = "b2l" -> B2lV(n, e)
    [] e.op = "conv" -> SameV(n, e)
    [] e.op = "equal" -> EqualV(n, e)
    [] e.op = "pack" -> PackV(n, e)
    [] e.op = "unpack" -> UnpackV(n, e)
    [] e.op = "repack" -> RepackV(n, e)
    [] e.op = "access" -> AccessV(n, e)
    [] e.op = "payload" -> PayloadV(n, e)
    [] OTHER -> <<>>

Init == i = 1 /\ viol = <<>>
Next ==
  /\ i <= Len(Trace)
  /\ viol' = viol \o Verdict(i, Trace[i])
  /\ i' = i + 1
  /\ i' > Len(Trace) => Report(viol')
Spec == Init /\ [][Next]_vars
=============================================================================
