---------------------------- MODULE FormatsOut ----------------------------
(* Writes every program of Formats.tla as JSON to the file named by OUT.   *)
EXTENDS Formats, Json, IOUtils
EC == INSTANCE Ec
ASSUME JsonSerialize(IOEnv.OUT, <<AllPrograms, EC!EcPrograms>>)
=============================================================================
