------------------------------ MODULE MCCliSys ------------------------------
EXTENDS CliSys, Json
One(from) == IF from = {} THEN {} ELSE {RandomElement(from)}
Finish == /\ Len(hist) = MaxCalls /\ last.kind # "done"
          /\ PrintT("BEHAVIOUR " \o ToJson(hist))
          /\ last' = [kind |-> "done"] /\ UNCHANGED <<site, toks, signed, hist>>
GenSpec == Init /\ [][Next \/ Finish]_vars
\* a simulated user has keys to begin with
BeginSpec == (/\ site = Created(Key("R4", "RSA", TRUE), "z") @@ Created(Key("R3", "RSA", TRUE), "y")
              /\ toks = <<>> /\ signed = {} /\ last = [kind |-> "none"]
              /\ hist = <<[a |-> "create", name |-> "z", mat |-> "R4"], [a |-> "create", name |-> "y", mat |-> "R3"]>>) /\ [][Next \/ Finish]_vars
=============================================================================
