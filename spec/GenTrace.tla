------------------------------ MODULE GenTrace ------------------------------
(* Recorded histories of generated structs against GenStruct. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
K == INSTANCE GenStruct WITH Deviation <- "none"
AllCases == ndJsonDeserialize(IOEnv.CASES)
Init0(c) == K!Nil
Step0(c, s, ev) == K!GStep(c.env, s, ev)
Final0(c, s) == ""
VARIABLES ci, oi, s, status
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- Step0, Final <- Final0
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
