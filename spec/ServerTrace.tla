---------------------------- MODULE ServerTrace ----------------------------
(* Recorded histories of server sockets and servers, followed by their
   specifications.                                                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
V == INSTANCE ServerSocket
M == INSTANCE Server
Sock(c) == c.kind \in {"ssock", "srace"}
AllCases == ndJsonDeserialize(IOEnv.CASES)
Init0(c) == IF Sock(c) THEN V!VInit(c) ELSE M!VInit(c)
Step0(c, s, ev) == IF Sock(c) THEN V!VStep(c, s, ev) ELSE M!VStep(c, s, ev)
Final0(c, s) == IF Sock(c) THEN V!VFinal(c, s) ELSE M!VFinal(c, s)
VARIABLES ci, oi, s, status
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- Step0, Final <- Final0
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
