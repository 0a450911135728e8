----------------------------- MODULE GenRpcTrace -----------------------------
(* Recorded histories of generated clients and processors against GenRpc. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
K == INSTANCE GenRpc WITH Deviation <- "none"
AllCases == ndJsonDeserialize(IOEnv.CASES)
Init0(c) == K!Start
VARIABLES ci, oi, s, status
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- K!RStep, Final <- K!RFinal
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
