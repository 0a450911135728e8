------------------------------ MODULE RpcTrace ------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
P == INSTANCE Rpc
AllCases == ndJsonDeserialize(IOEnv.CASES)
Init0(c) == P!VInit(c)
Step0(c, s, ev) == P!VStep(c, s, ev)
Final0(c, s) == P!VFinal(c, s)
VARIABLES ci, oi, s, status
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- Step0, Final <- Final0
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
