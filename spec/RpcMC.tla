------------------------------- MODULE RpcMC -------------------------------
(* Clients, connections, a server and its handlers.  Calls are pipelined on a
   connection; a handler runs between taking a request and writing its reply.
   Fault: "" | "slot" (one result slot for all handlers) | "wire" (one reply
   stream for all connections) | "early" (the reply is written before the
   handler returns) - the last three must violate an invariant.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS NC, NCalls, Kinds, Srv, Fault, Keep
C == 1..NC
VARIABLES prog,          \* per client, the kinds of its calls
          nsent, ngot, nfin, nret,   \* per client
          req, rep,      \* connections: requests and replies under way
          cur,           \* per connection, the call its handler works on (0: none)
          slot,          \* result slots
          closed, seen, hist
vars == <<prog, nsent, ngot, nfin, nret, req, rep, cur, slot, closed, seen, hist>>
Id(i, k) == <<i, k>>
Slot(i) == IF Fault = "slot" THEN 1 ELSE i
Wire(i) == IF Fault = "wire" THEN 1 ELSE i
Init == /\ prog \in [C -> [1..NCalls -> Kinds]]
        /\ nsent = [i \in C |-> 0] /\ ngot = [i \in C |-> 0] /\ nfin = [i \in C |-> 0] /\ nret = [i \in C |-> 0]
        /\ req = [i \in C |-> <<>>] /\ rep = [i \in C |-> <<>>] /\ cur = [i \in C |-> 0] /\ slot = [i \in C |-> <<0, 0>>]
        /\ closed = {} /\ seen = {} /\ hist = <<>>
H(s, i) == hist' = IF Keep THEN Append(hist, [s |-> s, c |-> i]) ELSE hist
Answered(i, k) == prog[i][k] # "oneway"
(* with the simple server the clients are numbered as they connect *)
Send(i) == /\ nsent[i] < NCalls /\ i \notin closed
           /\ Srv = "simple" => \A j \in C : j < i => nsent[j] > 0
           /\ nsent' = [nsent EXCEPT ![i] = @ + 1] /\ req' = [req EXCEPT ![i] = Append(@, nsent[i] + 1)]
           /\ H("send", i) /\ UNCHANGED <<prog, ngot, nfin, nret, rep, cur, slot, closed, seen>>
(* the simple server works for one connection until that is closed *)
Mine(i) == Srv # "simple" \/ \A j \in C : j < i => j \in closed /\ req[j] = <<>> /\ cur[j] = 0
Take(i) == /\ req[i] # <<>> /\ cur[i] = 0 /\ Mine(i)
           /\ cur' = [cur EXCEPT ![i] = Head(req[i])] /\ req' = [req EXCEPT ![i] = Tail(@)] /\ ngot' = [ngot EXCEPT ![i] = @ + 1]
           /\ IF Fault = "early" THEN rep' = [rep EXCEPT ![i] = Append(@, Id(i, Head(req[i])))] ELSE UNCHANGED rep
           /\ slot' = [slot EXCEPT ![Slot(i)] = Id(i, Head(req[i]))]
           /\ UNCHANGED <<prog, nsent, nfin, nret, closed, seen, hist>>
Fin(i) == /\ cur[i] # 0
          /\ rep' = IF Answered(i, cur[i]) /\ Fault # "early" THEN [rep EXCEPT ![Wire(i)] = Append(@, slot[Slot(i)])] ELSE rep
          /\ nfin' = [nfin EXCEPT ![i] = @ + 1] /\ cur' = [cur EXCEPT ![i] = 0]
          /\ H("fin", i) /\ UNCHANGED <<prog, nsent, ngot, nret, req, slot, closed, seen>>
NextRet(i) == CHOOSE k \in nret[i] + 1..NCalls + 1 : (k = NCalls + 1 \/ Answered(i, k)) /\ \A m \in nret[i] + 1..k - 1 : ~Answered(i, m)
Recv(i) == /\ rep[i] # <<>> /\ NextRet(i) <= NCalls
           /\ seen' = seen \cup {<<i, NextRet(i), Head(rep[i]), nfin[i]>>}
           /\ rep' = [rep EXCEPT ![i] = Tail(@)] /\ nret' = [nret EXCEPT ![i] = NextRet(i)]
           /\ H("recv", i) /\ UNCHANGED <<prog, nsent, ngot, nfin, req, cur, slot, closed>>
Done(i) == nsent[i] = NCalls /\ nfin[i] = NCalls /\ NextRet(i) > NCalls
Close(i) == /\ Done(i) /\ i \notin closed /\ closed' = closed \cup {i}
            /\ H("close", i) /\ UNCHANGED <<prog, nsent, ngot, nfin, nret, req, rep, cur, slot, seen>>
Next == \E i \in C : Send(i) \/ Take(i) \/ Fin(i) \/ Recv(i) \/ Close(i)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Next)
OwnReplies == \A x \in seen : x[3] = Id(x[1], x[2]) /\ x[4] >= x[2]
AllAnswered == <>(closed = C)
Emit == (closed = C) /\ Keep /\ IOEnv.EMIT = "1" => PrintT("SCRIPT " \o ToJson([prog |-> prog, steps |-> hist]))
=============================================================================
