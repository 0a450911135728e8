---------------------------- MODULE WriteFaultMC ----------------------------
(* A stack of writers over a transport that refuses one write or flush (or all
   from then on): every sequence of calls, each making one or two writes, every
   place of the fault.  The monitor WriteFault follows the calls.
   Variant 1: a call ignores the error of its first write; 2: a buffer forgets
   the error of a write it made on its own; 3: flush ignores errors.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Stacks, MaxOps, MaxFault, Variant
M == INSTANCE WriteFault
VARIABLES stack, fault, ops, real, ideal, mon, over, bad
vars == <<stack, fault, ops, real, ideal, mon, over, bad>>
Layer(k) == [k |-> k, buf |-> <<>>, err |-> 0]
Base == [out |-> <<>>, nw |-> 0, nf |-> 0, fl |-> 0]
New(s) == [l |-> [i \in 1..Len(s) |-> Layer(s[i])], b |-> Base]
Min2(a, b) == IF a < b THEN a ELSE b
Hit(n, at, once) == at > 0 /\ (n = at \/ (n > at /\ ~once))
BW(x, f, d) == LET n == x.nw + 1
                   y == [x EXCEPT !.nw = n]
               IN IF Hit(n, f.w, f.once)
                  THEN [x |-> [y EXCEPT !.fl = 1, !.out = @ \o (IF n = f.w THEN SubSeq(d, 1, Min2(f.b, Len(d))) ELSE <<>>)], e |-> 1]
                  ELSE [x |-> [y EXCEPT !.out = @ \o d], e |-> 0]
BF(x, f) == LET n == x.nf + 1 IN IF Hit(n, f.f, f.once) THEN [x |-> [x EXCEPT !.nf = n, !.fl = 1], e |-> 1] ELSE [x |-> [x EXCEPT !.nf = n], e |-> 0]
RECURSIVE W(_, _, _, _), F(_, _, _)
(* write d to layer i of stack st *)
W(st, i, f, d) ==
  IF i > Len(st.l) THEN LET r == BW(st.b, f, d) IN [st |-> [st EXCEPT !.b = r.x], e |-> r.e]
  ELSE LET y == st.l[i] IN
    IF y.k = "frame" THEN [st |-> [st EXCEPT !.l[i].buf = @ \o d], e |-> 0]
    ELSE IF y.k = "buf" THEN
      IF y.err = 1 THEN [st |-> st, e |-> 1]
      ELSE IF Len(y.buf) + Len(d) <= 2 THEN [st |-> [st EXCEPT !.l[i].buf = @ \o d], e |-> 0]
      ELSE LET r == W([st EXCEPT !.l[i].buf = d], i + 1, f, y.buf)
           IN [st |-> IF Variant = 2 THEN r.st ELSE [r.st EXCEPT !.l[i].err = r.e], e |-> IF Variant = 2 THEN 0 ELSE r.e]
    ELSE W(st, i + 1, f, d)
F(st, i, f) ==
  IF i > Len(st.l) THEN LET r == BF(st.b, f) IN [st |-> [st EXCEPT !.b = r.x], e |-> r.e]
  ELSE LET y == st.l[i] IN
    IF y.k \in {"frame", "buf"} THEN
      IF y.err = 1 THEN [st |-> st, e |-> 1]
      ELSE IF y.k = "buf" /\ y.buf = <<>> THEN F(st, i + 1, f)
      ELSE LET r == W([st EXCEPT !.l[i].buf = <<>>], i + 1, f, IF y.k = "frame" THEN <<100 + Len(y.buf)>> \o y.buf ELSE y.buf)
           IN IF r.e = 1 /\ Variant # 3 THEN [st |-> [r.st EXCEPT !.l[i].err = 1], e |-> 1] ELSE F(r.st, i + 1, f)
    ELSE F(st, i + 1, f)
NoFault == [w |-> 0, b |-> 0, f |-> 0, once |-> FALSE]
(* a call: "1" one write of one byte, "2" two writes, "F" a flush *)
Call(st, f, o, k) ==
  CASE o = "1" -> W(st, 1, f, <<k>>)
    [] o = "2" -> LET r == W(st, 1, f, <<k>>) IN IF r.e = 1 /\ Variant # 1 THEN r ELSE W(r.st, 1, f, <<k + 50, k + 60>>)
    [] o = "F" -> F(st, 1, f)
Init == /\ stack \in Stacks
        /\ fault \in {[w |-> w, b |-> b, f |-> 0, once |-> o] : w \in 1..MaxFault, b \in 0..1, o \in BOOLEAN}
               \cup {[w |-> 0, b |-> 0, f |-> n, once |-> o] : n \in 1..2, o \in BOOLEAN} \cup {NoFault}
        /\ ops = <<>> /\ real = New(stack) /\ ideal = New(stack) /\ mon = M!VInit([x |-> 0]) /\ over = FALSE /\ bad = ""
Next == /\ ~over /\ Len(ops) < MaxOps
        /\ \E o \in {"1", "2", "F"} :
             LET k == Len(ops)
                 r == Call(real, fault, o, k)
                 i == Call(ideal, NoFault, o, k)
                 c == [good |-> 1, full |-> i.st.b.out, wire |-> r.st.b.out]
                 v == M!VStep(c, mon, [o |-> IF o = "F" THEN "Flush" ELSE o, e |-> r.e, fl |-> r.st.b.fl, out |-> Len(r.st.b.out)])
             IN /\ ops' = Append(ops, o) /\ real' = r.st /\ ideal' = i.st /\ mon' = v.s
                /\ over' = (v.v # "go") /\ bad' = IF v.v = "bad" THEN v.want ELSE ""
                /\ UNCHANGED <<stack, fault>>
AllStacks == {<<>>, <<"buf">>, <<"frame">>, <<"frame", "frame">>, <<"buf", "frame">>, <<"frame", "buf">>, <<"buf", "buf">>}
Spec == Init /\ [][Next]_vars
Followed == bad = ""
Reported == ~over /\ ops # <<>> /\ ops[Len(ops)] = "F" => real.b.out = ideal.b.out
Emit == IOEnv.EMIT = "1" /\ (over \/ Len(ops) = MaxOps) /\ ops # <<>> /\ ops[Len(ops)] = "F" =>
          PrintT("SCRIPT " \o ToJson([stack |-> stack, fault |-> fault, ops |-> ops]))
=============================================================================
