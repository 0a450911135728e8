----------------------------- MODULE ErrorTrace -----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
E == INSTANCE Errors
AllCases == ndJsonDeserialize(IOEnv.CASES)
Init0(c) == IF c.sub = "wrap" THEN E!WInit(c) ELSE E!XInit(c)
Step0(c, s, ev) == IF c.sub = "wrap" THEN E!WStep(c, s, ev) ELSE E!XStep(c, s, ev)
Final0(c, s) == IF c.sub = "wrap" THEN "" ELSE E!XFinal(c, s)
VARIABLES ci, oi, s, status
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- Step0, Final <- Final0
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
