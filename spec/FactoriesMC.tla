---------------------------- MODULE FactoriesMC ----------------------------
(* Three products of one factory, made at any time, for nothing or for given
   transports, written, flushed and read in any order.
   Fault: "" | "shared" (the products share what is pending) | "given" (the
   given transport's parameters are ignored) | "always" (a given transport of
   another kind counts): must violate Own, Wired.
   And the wiring of servers by every constructor: swapped must violate.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxOps, Fault
F == INSTANCE Factories
Objs == 1..3
VARIABLES gv, objs, hist, last
vars == <<gv, objs, hist, last>>
Absent == [on |-> FALSE, at |-> "", pend |-> <<>>, out |-> <<>>, w |-> <<>>]
Init == /\ gv \in [Objs -> {"", "same", "other"}] /\ objs = [i \in Objs |-> Absent] /\ hist = <<>> /\ last = <<>>
Cfg(i) == [kind |-> "stream", gv |-> gv[i], f |-> "own", g |-> "given"]
Where(i) == CASE Fault = "given" -> "own" [] Fault = "always" /\ gv[i] # "" -> "given" [] OTHER -> F!Params(Cfg(i))
Did(o, i) == hist' = Append(hist, [o |-> o, ob |-> i]) /\ UNCHANGED gv
Make(i) == /\ ~objs[i].on /\ \A j \in 1..(i - 1) : objs[j].on
           /\ objs' = [objs EXCEPT ![i] = [Absent EXCEPT !.on = TRUE, !.at = Where(i)]] /\ Did("Make", i) /\ UNCHANGED last
On == {i \in Objs : objs[i].on}
Write(i) == /\ objs[i].on /\ Did("W", i) /\ UNCHANGED last
            /\ objs' = [j \in Objs |-> LET x == objs[j]  d == <<Len(hist) + 1>>
                          IN IF j = i THEN [x EXCEPT !.pend = x.pend \o d, !.w = x.w \o d]
                             ELSE IF Fault = "shared" THEN [x EXCEPT !.pend = x.pend \o d] ELSE x]
Flush(i) == /\ objs[i].on /\ Did("F", i) /\ UNCHANGED last
            /\ objs' = [objs EXCEPT ![i].out = objs[i].out \o objs[i].pend, ![i].pend = <<>>]
Read(i) == /\ objs[i].on /\ Did("R", i) /\ last' = objs[i].out /\ UNCHANGED objs
Next == Len(hist) < MaxOps /\ \E i \in Objs : Make(i) \/ Write(i) \/ Flush(i) \/ Read(i)
Spec == Init /\ [][Next]_vars
Own == \A i \in On : objs[i].out \o objs[i].pend = objs[i].w
Wired == \A i \in On : objs[i].at = IF gv[i] = "same" THEN "given" ELSE "own"
(* every server reads with its input side and writes with its output side *)
Sides == \A k \in F!Ctors :
   LET x == F!Exposed(k) IN
   /\ (x.ti = x.to) = (k \notin {0, 3}) /\ (x.pi = x.po) = (k \notin {0, 3})
   /\ F!Reads(k, "c") # <<"c">> /\ F!Reads(k, "c")[Len(F!Reads(k, "c"))] = "c"
   /\ \A y \in F!Calls(k, "c") : y[1] \in {x.pf, x.ti, x.to, x.pi, x.po}
Emit == Len(hist) = MaxOps /\ IOEnv.EMIT = "1" => PrintT("SCRIPT " \o ToJson([gv |-> gv, ops |-> hist]))
=============================================================================
