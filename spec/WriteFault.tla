----------------------------- MODULE WriteFault -----------------------------
(* Protocol calls over a transport that refuses some write or flush.
   ev.fl: refusals so far, ev.out: bytes the transport took so far.  c.full:
   the bytes of the same calls without faults (c.good = 1: all succeeded);
   c.wire: the bytes taken at the end.  The calls end with the first error.  *)
EXTENDS Integers, Sequences, TLC
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Stop(s) == [v |-> "stop", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
VInit(c) == [fl |-> 0]
VStep(c, s, ev) ==
  IF c.good # 1 THEN Bad(s, "success without faults")
  ELSE IF ev.e >= 2 THEN Bad(s, "no panic, no hang")
  ELSE IF ev.e = 1 /\ ev.fl = 0 THEN Bad(s, "success before any fault")
  ELSE IF ev.e = 0 /\ ev.o = "Flush" /\ ev.fl > 0 THEN Bad(s, "an error by the flush at the latest")
  ELSE IF ~Prefix(SubSeq(c.wire, 1, ev.out), c.full) THEN Bad(s, "a prefix of the bytes without faults")
  ELSE IF ev.e = 1 THEN Stop(s)
  ELSE Go([fl |-> ev.fl])
VFinal(c, s) == IF s.fl > 0 THEN "an error" ELSE IF c.wire # c.full THEN "the bytes without faults" ELSE ""
=============================================================================
