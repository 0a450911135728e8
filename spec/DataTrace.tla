----------------------------- MODULE DataTrace -----------------------------
(* Recorded histories of containers, comparisons and descriptions. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
C == INSTANCE Containers
D == INSTANCE StructDesc
AllCases == ndJsonDeserialize(IOEnv.CASES)
Init0(c) == CASE c.sub = "list" -> C!LInit(c.et)
              [] c.sub = "set" -> C!SInit(c.et)
              [] c.sub = "map" -> C!MInit(c.kt, c.et)
              [] OTHER -> 0
Step0(c, s, ev) == CASE c.sub = "list" -> C!LStep(s, ev)
              [] c.sub = "set" -> C!SStep(s, ev)
              [] c.sub = "map" -> C!MStep(s, ev)
              [] c.sub = "cmp" -> IF ev.o = "Matrix" THEN C!Matrix(s, ev) ELSE C!Helper(s, ev)
              [] c.sub = "desc" -> D!DStep(c, s, ev)
Final0(c, s) == ""
VARIABLES ci, oi, s, status
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- Step0, Final <- Final0
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
