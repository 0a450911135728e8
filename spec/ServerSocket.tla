---------------------------- MODULE ServerSocket ----------------------------
(* A server socket used by several threads.  Every call takes effect at one
   moment between its start and its return, except that an accept first looks
   for a listener and then waits for a connection to it.
   Configuration: open (listening), intr (interrupted since the last listen),
   gen (number of the current listener), q (clients connected and not yet
   accepted), pend (calls under way: th thread, f call, cl client, ph 0 started,
   1 accept waiting on listener g, 2 done with result e, ek, n).
   c.sock: "sv" the server socket (whose accept listens if need be), "nb" the
   nonblocking one.  c.busy = 1: somebody else listens at the address.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NOT_OPEN == 1
ALREADY_OPEN == 2
ANY == -9

Cfg0(c) == [open |-> c.pre = 1, intr |-> FALSE, gen |-> 1, q |-> <<>>, pend |-> {}]
Call(th, f, cl) == [th |-> th, f |-> f, cl |-> cl, ph |-> 0, g |-> 0, e |-> 0, ek |-> ANY, n |-> ANY]
With(x, p, p2) == [x EXCEPT !.pend = (x.pend \ {p}) \cup {p2}]
Done(p, e, ek, n) == [p EXCEPT !.ph = 2, !.e = e, !.ek = ek, !.n = n]
Ok(x, p) == With(x, p, Done(p, 0, ANY, ANY))
Fail(x, p, ek) == With(x, p, Done(p, 1, ek, ANY))
Opened(x) == [x EXCEPT !.open = TRUE, !.intr = FALSE, !.gen = x.gen + 1, !.q = <<>>]
Shut(x) == [x EXCEPT !.open = FALSE, !.q = <<>>]

(* the configurations one internal step of call p leads to *)
Step1(c, x, p) ==
  IF p.ph = 2 THEN {}
  ELSE IF p.f = "Accept" THEN
    IF p.ph = 0
    THEN IF x.open THEN {With(x, p, [p EXCEPT !.ph = 1, !.g = x.gen])}
         ELSE IF c.sock = "nb" THEN {Fail(x, p, NOT_OPEN)}
         ELSE IF x.intr \/ c.busy = 1 THEN {Fail(x, p, ANY)}
         ELSE LET y == Opened(x) IN {With(y, p, [p EXCEPT !.ph = 1, !.g = y.gen])}
    ELSE IF ~x.open \/ x.gen # p.g THEN {Fail(x, p, ANY)}
    ELSE IF x.q # <<>> THEN {With([x EXCEPT !.q = Tail(x.q)], p, Done(p, 0, ANY, Head(x.q)))}
    ELSE {}
  ELSE CASE p.f \in {"Listen", "Open"} ->
              IF x.open THEN IF p.f = "Listen" /\ c.sock = "sv" THEN {Ok(x, p)} ELSE {Fail(x, p, ALREADY_OPEN)}
              ELSE IF c.busy = 1 THEN {Fail(x, p, ANY)}
              ELSE {Ok(Opened(x), p)}
         [] p.f = "Close" -> {Ok(Shut(x), p)}
         [] p.f = "Interrupt" -> {Ok([Shut(x) EXCEPT !.intr = TRUE], p)}
         [] p.f \in {"IsOpen", "Peek"} -> {With(x, p, Done(p, 0, ANY, IF x.open THEN 1 ELSE 0))}
         [] p.f = "Dial" -> IF x.open THEN {Ok([x EXCEPT !.q = Append(x.q, p.cl)], p)} ELSE {Fail(x, p, ANY)}
         [] p.f = "Port" -> {With(x, p, Done(p, 0, ANY, IF x.open \/ c.busy = 1 THEN 0 ELSE 1))}   \* can others listen there?
         [] p.f \in {"R", "RA", "W", "F"} -> {Fail(x, p, ANY)}
         [] OTHER -> {Ok(x, p)}
RECURSIVE Closure(_, _)
Closure(c, S) == LET N == UNION {UNION {Step1(c, x, p) : p \in x.pend} : x \in S} IN IF N \subseteq S THEN S ELSE Closure(c, S \cup N)

(* ------------------------- following a recording ----------------------- *)
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
VInit(c) == {Cfg0(c)}
Fits(p, ev) == /\ p.e = ev.e
               /\ p.ek # ANY => ev.ek = p.ek
               /\ p.n # ANY /\ p.e = 0 => ev.n = p.n
VStep(c, S, ev) ==
  IF ev.o = "new" THEN Go(VInit(c))
  ELSE IF ev.o = "call" THEN Go({[x EXCEPT !.pend = x.pend \cup {Call(ev.th, ev.f, ev.cl)}] : x \in S})
  ELSE IF ev.e >= 2 THEN Bad(S, "no panic, no hang")
  ELSE IF ev.f = "Accept" /\ ev.e = 0 /\ ev.good # 1 THEN Bad(S, "an accepted transport that works and has the configured timeout")
  ELSE LET D == Closure(c, S)
           mine(x) == CHOOSE p \in x.pend : p.th = ev.th
           R == {x \in D : mine(x).ph = 2 /\ Fits(mine(x), ev)}
       IN IF R = {} THEN Bad(S, {<<"result", mine(x).e, mine(x).ek, mine(x).n>> : x \in {y \in D : mine(y).ph = 2}})
          ELSE Go({[x EXCEPT !.pend = x.pend \ {mine(x)}] : x \in R})
VFinal(c, S) == IF \E x \in S : x.pend = {} THEN "" ELSE "no call left waiting"
=============================================================================
