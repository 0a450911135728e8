--------------------------- MODULE ServerSocketMC ---------------------------
(* Threads using one server socket: every order of bounded sequences of calls.
   One call at a time is under way, except for accepts, which may wait.  With
   EMIT set the orders are printed, to be replayed on the real sockets.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Threads, MaxOps, Sock
V == INSTANCE ServerSocket
VARIABLES c, x, hist, nd, acc
vars == <<c, x, hist, nd, acc>>
Fns == {"Listen", "Open", "Accept", "Close", "Interrupt", "IsOpen", "Dial"}
Settled(y) == \A p \in y.pend : p.ph = 1 /\ V!Step1(c, y, p) = {}
Busy == {p.th : p \in x.pend}
Init == /\ c \in {[sock |-> Sock, busy |-> 0, pre |-> 0]} /\ x = V!Cfg0(c) /\ hist = <<>> /\ nd = 0 /\ acc = <<>>
Start == /\ Settled(x) /\ Len(hist) < MaxOps
         /\ \E th \in Threads \ Busy, f \in Fns :
              /\ \A t \in Threads \ Busy : t < th => \E i \in 1..Len(hist) : hist[i].th = t     \* threads are alike
              /\ f # "IsOpen" \/ (hist # <<>> /\ hist[Len(hist)].f # "IsOpen")
              /\ x' = [x EXCEPT !.pend = x.pend \cup {V!Call(th, f, IF f = "Dial" THEN nd + 1 ELSE 0)}]
              /\ nd' = IF f = "Dial" THEN nd + 1 ELSE nd
              /\ hist' = Append(hist, [th |-> th, f |-> f, blk |-> 0])
         /\ UNCHANGED <<c, acc>>
Run == /\ \E p \in x.pend : \E y \in V!Step1(c, x, p) :
            /\ x' = y
            \* the last call is an accept that now waits
            /\ hist' = IF p.f = "Accept" /\ p.ph = 0 /\ (\E q \in y.pend : q.th = p.th /\ q.ph = 1) /\ y.q = <<>>
                       THEN [hist EXCEPT ![Len(hist)].blk = 1] ELSE hist
       /\ UNCHANGED <<c, nd, acc>>
Return == /\ \E p \in x.pend : /\ p.ph = 2
                               /\ x' = [x EXCEPT !.pend = x.pend \ {p}]
                               /\ acc' = IF p.f = "Accept" /\ p.e = 0 THEN Append(acc, p.n) ELSE acc
          /\ UNCHANGED <<c, hist, nd>>
Next == Start \/ Run \/ Return
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Run) /\ WF_vars(Return)

OnceInOrder == \A i, j \in 1..Len(acc) : i < j => acc[i] # acc[j]
NothingQueuedWhenClosed == ~x.open => x.q = <<>>
Listening == x.open => ~x.intr
(* an accept that waits goes on waiting only while its listener is open *)
WaitsOnOpen == Settled(x) => \A p \in x.pend : x.open /\ p.g = x.gen /\ x.q = <<>>
AcceptEnds == \A th \in Threads : (\E p \in x.pend : p.th = th) ~> ((\A p \in x.pend : p.th # th) \/ (x.open /\ x.q = <<>>))
Emit == IOEnv.EMIT = "1" /\ Len(hist) = MaxOps /\ Settled(x) => PrintT("SCRIPT " \o ToJson([c |-> c, ops |-> hist]))
=============================================================================
