--------------------------- MODULE TransportTrace ---------------------------
(* Recorded histories of real transports, followed by their specifications. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
F == INSTANCE Framed
P == INSTANCE Pipe
A == INSTANCE ReadAll
K == INSTANCE Socket
H == INSTANCE HttpClient
AllCases == ndJsonDeserialize(IOEnv.CASES)
Init0(c) == CASE c.kind = "framed" -> F!FInit(c.wire)
              [] c.kind = "membuf" -> <<>>
              [] c.kind = "iostream" -> P!SInit(c)
              [] c.kind = "readall" -> A!AInit(c)
              [] c.kind = "sock" -> K!KInit(c)
              [] c.kind = "http" -> H!HInit(c)
Step0(c, s, ev) == CASE c.kind = "framed" -> F!FStep(c, s, ev)
              [] c.kind = "membuf" -> P!MStep(c, s, ev)
              [] c.kind = "iostream" -> P!SStep(c, s, ev)
              [] c.kind = "readall" -> A!AStep(c, s, ev)
              [] c.kind = "sock" -> K!KStep(c, s, ev)
              [] c.kind = "http" -> H!HStep(c, s, ev)
Final0(c, s) == ""
VARIABLES ci, oi, s, status
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- Step0, Final <- Final0
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
