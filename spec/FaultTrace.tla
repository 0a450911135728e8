----------------------------- MODULE FaultTrace -----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
F == INSTANCE WriteFault
AllCases == ndJsonDeserialize(IOEnv.CASES)
Init0(c) == F!VInit(c)
Step0(c, s, ev) == F!VStep(c, s, ev)
Final0(c, s) == F!VFinal(c, s)
VARIABLES ci, oi, s, status
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- Step0, Final <- Final0
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
