---------------------------- MODULE CoerceTrace ----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
K == INSTANCE Coerce
AllCases == ndJsonDeserialize(IOEnv.CASES)
Init0(c) == c.src
Step0(c, s, ev) == K!CStep(c, s, ev)
Final0(c, s) == ""
VARIABLES ci, oi, s, status
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- Step0, Final <- Final0
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
