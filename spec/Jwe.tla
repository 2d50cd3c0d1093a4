-------------------------------- MODULE Jwe ---------------------------------
(***************************************************************************)
(* What JWE encryption and decryption may and must do (C04, C06 - C10).    *)
(*                                                                         *)
(* A token, as the receiver sees it:                                       *)
(*   [parts  number of dot-separated parts                                 *)
(*    b64    per part "canon", "loose" or "bad"                            *)
(*    hdr    "obj" if the first part holds a JSON object, else "bad"       *)
(*    algk, alg, enck, enc   kind and value of alg and enc                 *)
(*    zip    "absent", "DEF", "falsy" or "bad"                             *)
(*    kid, crit                                                            *)
(*    epk    "absent", "ok" (a point of the curve epkcrv names) or "bad"   *)
(*    opens  the materials that open the token by the program              *)
(*           JweDecrypt(alg, enc, zip), with the payload: [mat, pay]       *)
(*    cekpay the payload under the content key given by the caller, ""     *)
(*           if it does not authenticate the token                         *)
(*    odd    outside the RFC's syntax in a way a reader may refuse ]       *)
(*                                                                         *)
(* An object: [pin, kid, haskid, jwk, jwtkid].  pin is the constructor's   *)
(* alg, jwtkid the kid of the token a factory object was made from.        *)
(* A call: [keys, want, hascek].                                           *)
(***************************************************************************)
EXTENDS Keys

UsedKeys(o, a) == IF a.keys # <<>> THEN a.keys ELSE o.jwk
ObjKid(o) == IF o.haskid THEN o.kid ELSE ""
Candidates(o, t, a) ==
  LET ks == UsedKeys(o, a) IN { ks[i] : i \in Fitting(ks, t.alg, ObjKid(o), "enc") }

Opening(t, k) == IF k.priv THEN { t.opens[i].pay : i \in { j \in DOMAIN t.opens : t.opens[j].mat = k.mat } } ELSE {}
\* what the fitting keys make of it
Opened(o, t, a) == UNION { Opening(t, k) : k \in Candidates(o, t, a) }
ByCek(t, a) == IF a.hascek /\ t.cekpay # "" /\ t.alg \notin EcAlgs THEN {t.cekpay} ELSE {}
Yields(o, t, a) == Opened(o, t, a) \cup ByCek(t, a)

\* the ephemeral key is on the curve of some recipient key
EpkFits(o, t, a) == t.epk = "ok" /\ \E k \in Candidates(o, t, a) : k.crv = t.epkcrv

RejectBecause(o, t, a) ==
  IF t.parts # 5 \/ \E i \in DOMAIN t.b64 : t.b64[i] = "bad" THEN {"parts"}
  ELSE IF t.hdr # "obj" THEN {"header"}
  ELSE (IF t.crit THEN {"crit"} ELSE {})
       \cup IF t.algk # "str" \/ t.alg \notin JweAlgs THEN {"alg"}
            ELSE (IF a.want # "" /\ a.want # t.alg THEN {"want"} ELSE {})
                 \cup (IF t.enck # "str" \/ t.enc \notin Encs THEN {"enc"}
                       ELSE IF ByCek(t, a) # {} THEN {}
                       ELSE IF Candidates(o, t, a) = {} THEN {IF a.hascek THEN "open" ELSE "nokey"}
                       ELSE IF Opened(o, t, a) # {} THEN {}
                       ELSE {"open"} \cup (IF t.alg \in EcAlgs /\ ~EpkFits(o, t, a) THEN {"epk"} ELSE {}))

MayRefuse(o, t, a) ==
  \/ \E i \in DOMAIN t.b64 : t.b64[i] # "canon"
  \/ t.odd \/ t.zip = "falsy"
  \/ o.pin \notin {"", "none", t.alg}
  \/ o.jwtkid # "" /\ ~\E k \in Candidates(o, t, a) : k.kid = o.jwtkid /\ Opening(t, k) # {}
  \/ o.haskid /\ o.kid = ""

-----------------------------------------------------------------------------
(* Encryption: <<"tok", key>> or <<"err", class>>                           *)
RsaRoom(k, alg) == ((k.size + 7) \div 8) - (CASE alg = "RSA1_5" -> 11 [] alg = "RSA-OAEP" -> 42 [] OTHER -> 66)
CanEncrypt(k, alg, enc) == alg \in RsaAlgs => RsaRoom(k, alg) >= CekLen[enc]
EncryptResult(o, alg, enc, zip, keys) ==
  IF alg \notin JweAlgs THEN <<"err", "">>
  ELSE LET ks == IF keys # <<>> THEN keys ELSE o.jwk
           f == Fitting(ks, alg, ObjKid(o), "enc")
       IN IF f = {} THEN <<"err", "nokey">>
          ELSE IF enc \notin Encs \/ zip \notin {"", "DEF"} THEN <<"err", "">>
          ELSE IF ~CanEncrypt(ks[First(f)], alg, enc) THEN <<"err", "">>
          ELSE <<"tok", ks[First(f)]>>
\* with a content key of the caller's own: the same, but it may be that nothing is encrypted with the RSA key
EncryptOwnCek(o, alg, enc, zip, keys) ==
  LET r == EncryptResult(o, alg, enc, zip, keys) ks == IF keys # <<>> THEN keys ELSE o.jwk f == Fitting(ks, alg, ObjKid(o), "enc") IN
  IF r = <<"err", "">> /\ alg \in RsaAlgs /\ enc \in Encs /\ zip \in {"", "DEF"} /\ f # {} THEN <<"tok", ks[First(f)]>> ELSE r

\* members of the header: what the object was made with, the key's kid, and
\* for ECDH-ES the ephemeral key and the parties' info
Quote(s) == "\"" \o s \o "\""
HeaderOf(base, kid) == IF kid # "" THEN ("kid" :> Quote(kid)) @@ base ELSE base
EcMembers == {"epk", "apu", "apv"}
HeaderOk(base, k, alg, hdr) ==
  LET want == HeaderOf(base, k.kid) IN
  /\ \A m \in DOMAIN want : m \in DOMAIN hdr /\ hdr[m] = want[m]
  /\ DOMAIN hdr \ DOMAIN want \subseteq (IF alg \in EcAlgs THEN EcMembers ELSE {})
  /\ alg \in EcAlgs => "epk" \in DOMAIN hdr
=============================================================================
