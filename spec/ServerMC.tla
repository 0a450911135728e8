------------------------------ MODULE ServerMC ------------------------------
(* The design of the servers: the serve loop, a handler per connection (the
   loop itself in the simple server), threads that stop the server, clients,
   and the server socket, interleaved between the points at which the driver
   has gates.  Every behaviour is followed by the monitor Server; with EMIT
   set the schedules are printed, one for each transition of the graph, and
   replayed on the real servers.
   Variant 1: an accept listens again after an interrupt; 2: no interrupt when
   the loop ends; 3: the flag is set after the interrupt.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Kind, Sock, NStops, NC, NReq, Modes, Variant
M == INSTANCE Server
c == [kind |-> Kind, ctor |-> 0, busy |-> 0, nc |-> NC]
VARIABLES srv, cur, err, flag, sock, q, hd, st, cl, mon, bad, hist
vars == <<srv, cur, err, flag, sock, q, hd, st, cl, mon, bad, hist>>
view == <<srv, cur, err, flag, sock, q, hd, st, cl, mon, bad>>
Cl == 1..NC
E(o, a, b, e, m) == [o |-> o, a |-> a, b |-> b, e |-> e, m |-> m, x |-> "in/in/out/out", pc |-> a, ic |-> a, oc |-> a]
TC(a, x) == [E("tclose", a, 0, 0, "") EXCEPT !.x = x]
RECURSIVE Run(_, _)
Run(s, evs) == IF evs = <<>> THEN [s |-> s, bad |-> ""]
               ELSE LET r == M!VStep(c, s, Head(evs)) IN IF r.v = "bad" THEN [s |-> s, bad |-> <<Head(evs), r.want>>] ELSE Run(r.s, Tail(evs))
Obs(evs) == LET r == Run(mon, evs) IN mon' = r.s /\ bad' = IF bad # "" THEN bad ELSE IF r.bad = "" THEN "" ELSE r.bad
Step(s, t, k, m) == hist' = IF IOEnv.EMIT = "1" THEN Append(hist, [s |-> s, t |-> t, c |-> k, mode |-> m]) ELSE hist
Quiet == hist' = hist
Init == /\ srv = "idle" /\ cur = 0 /\ err = 0 /\ flag = FALSE /\ sock = [open |-> FALSE, intr |-> FALSE] /\ q = <<>>
        /\ hd = [k \in Cl |-> "no"] /\ st = [k \in 1..NStops |-> "no"] /\ cl = [k \in Cl |-> [up |-> 0, sent |-> <<>>, done |-> 0, shut |-> 0]]
        /\ mon = M!VInit(c) /\ bad = "" /\ hist = <<>>
Same(s) == UNCHANGED s
Opened == [open |-> TRUE, intr |-> FALSE]
Serve == /\ srv = "idle" /\ srv' = "L-" /\ flag' = FALSE /\ Obs(<<E("serve", 0, 0, 0, ""), E("lcall", 0, 0, 0, "")>>)
         /\ Step("serve", "", 0, "") /\ Same(<<cur, err, sock, q, hd, st, cl>>)
(* what the loop does next: evs happened before *)
Loop(evs) == IF flag THEN /\ srv' = "ret" /\ Obs(evs \o <<E("sret", 0, 0, 0, "")>>)
                          /\ IF Variant = 2 THEN Same(<<sock, q>>) ELSE sock' = [open |-> FALSE, intr |-> TRUE] /\ q' = <<>>
             ELSE srv' = "A-" /\ Same(<<sock, q>>) /\ Obs(evs)
GoL1 == /\ srv = "L-" /\ srv' = "L+" /\ sock' = Opened /\ q' = <<>> /\ Obs(<<E("lret", 0, 0, 0, "")>>) /\ Same(<<cur, err, flag, hd, st, cl>>)
GoL2 == srv = "L+" /\ Loop(<<>>) /\ Same(<<cur, err, flag, hd, st, cl>>)
GoA1 == /\ srv = "A-" /\ Same(<<cur, flag, q, hd, st, cl, mon, bad>>)
        /\ IF sock.open THEN srv' = "acc" /\ Same(<<sock, err>>)
           ELSE IF Sock = "sv" /\ (~sock.intr \/ Variant = 1) THEN srv' = "acc" /\ sock' = Opened /\ Same(err)
           ELSE srv' = "A+" /\ err' = 1 /\ Same(sock)
Acc == /\ srv = "acc" /\ Quiet /\ Same(<<flag, sock, hd, st, cl>>)
       /\ IF ~sock.open THEN srv' = "A+" /\ err' = 1 /\ Same(<<q, cur, mon, bad>>)
          ELSE q # <<>> /\ srv' = "A+" /\ cur' = Head(q) /\ q' = Tail(q) /\ Obs(<<E("acc", Head(q), 0, 0, "")>>) /\ Same(err)
GoA2 == /\ srv = "A+" /\ Same(<<err, flag, st, cl, cur>>)
        /\ IF err = 1 THEN srv' = "ret" /\ Obs(<<E("sret", 0, 0, 1, "")>>) /\ Same(<<hd, sock, q>>)
           ELSE /\ hd' = [hd EXCEPT ![cur] = "P-"]
                /\ IF Kind = "simple" THEN srv' = "h" /\ Same(<<mon, bad, sock, q>>) ELSE Loop(<<>>)
GoSrv == (GoL1 \/ GoL2 \/ GoA1 \/ GoA2) /\ Step("go", "srv", 0, "")
GoP1(k) == hd[k] = "P-" /\ hd' = [hd EXCEPT ![k] = "read"] /\ Same(<<srv, cur, err, flag, sock, q, st, cl, mon, bad>>)
ReadP(k) == /\ hd[k] = "read" /\ Quiet /\ Same(<<srv, cur, err, flag, sock, q, st>>)
            /\ IF Len(cl[k].sent) > cl[k].done
               THEN LET i == cl[k].done + 1  m == cl[k].sent[i] IN
                    /\ cl' = [cl EXCEPT ![k].done = i] /\ hd' = [hd EXCEPT ![k] = IF m = "ok" THEN "P+" ELSE "P!"]
                    /\ Obs(<<E("proc", k, i, 0, m), E("pret", k, IF m = "ok" THEN 0 ELSE 1, 0, "")>>)
               ELSE cl[k].shut = 1 /\ hd' = [hd EXCEPT ![k] = "P!"] /\ Same(cl) /\ Obs(<<E("pend", k, 0, 0, "")>>)
GoP2(k) == /\ hd[k] \in {"P+", "P!"} /\ Same(<<cur, err, flag, st, cl>>)
           /\ IF hd[k] = "P!" \/ (Kind = "simple" /\ flag)
              THEN /\ hd' = [hd EXCEPT ![k] = "done"]
                   /\ IF Kind = "simple" THEN Loop(<<TC(k, "in"), TC(k, "out")>>) ELSE Obs(<<TC(k, "in"), TC(k, "out")>>) /\ Same(<<srv, sock, q>>)
              ELSE hd' = [hd EXCEPT ![k] = "P-"] /\ Same(<<srv, sock, q, mon, bad>>)
GoHd == \E k \in Cl : (GoP1(k) \/ GoP2(k)) /\ Step("go", "c" \o ToString(k), 0, "")
ReadAny == \E k \in Cl : ReadP(k)
Stop(k) == /\ st[k] = "no" /\ (IF k = 1 THEN TRUE ELSE st[k - 1] # "no") /\ st' = [st EXCEPT ![k] = "I-"] /\ flag' = IF Variant = 3 THEN flag ELSE TRUE
           /\ Obs(<<E("stopc", k, 0, 0, "")>>) /\ Step("stop", "", 0, "") /\ Same(<<srv, cur, err, sock, q, hd, cl>>)
GoI1(k) == st[k] = "I-" /\ st' = [st EXCEPT ![k] = "I+"] /\ sock' = [open |-> FALSE, intr |-> TRUE] /\ q' = <<>> /\ Same(<<srv, cur, err, flag, hd, cl, mon, bad>>)
GoI2(k) == st[k] = "I+" /\ st' = [st EXCEPT ![k] = "done"] /\ flag' = TRUE /\ Obs(<<E("stopr", k, 0, 0, "")>>) /\ Same(<<srv, cur, err, sock, q, hd, cl>>)
GoStop == \E k \in 1..NStops : (GoI1(k) \/ GoI2(k)) /\ Step("go", "s" \o ToString(k), 0, "")
Dial(k) == /\ cl[k].up = 0 /\ (IF k = 1 THEN TRUE ELSE cl[k - 1].up # 0) /\ Step("dial", "", k, "")
           /\ IF sock.open THEN q' = Append(q, k) /\ cl' = [cl EXCEPT ![k].up = 1] ELSE Same(q) /\ cl' = [cl EXCEPT ![k].up = 2]
           /\ Obs(<<E("dcall", k, 0, 0, ""), E("dial", k, 0, IF sock.open THEN 0 ELSE 1, "")>>)
           /\ Same(<<srv, cur, err, flag, sock, hd, st>>)
Send(k, m) == /\ cl[k].up = 1 /\ cl[k].shut = 0 /\ Len(cl[k].sent) < NReq /\ Step("send", "", k, m)
              /\ cl' = [cl EXCEPT ![k].sent = Append(@, m)] /\ Obs(<<E("send", k, 0, 0, m)>>) /\ Same(<<srv, cur, err, flag, sock, q, hd, st>>)
Shut(k) == /\ cl[k].up = 1 /\ cl[k].shut = 0 /\ cl' = [cl EXCEPT ![k].shut = 1] /\ Step("close", "", k, "")
           /\ Obs(<<E("cclose", k, 0, 0, "")>>) /\ Same(<<srv, cur, err, flag, sock, q, hd, st>>)
Client == \E k \in Cl : Dial(k) \/ (\E m \in Modes : Send(k, m)) \/ Shut(k)
AnyStop == \E k \in 1..NStops : Stop(k)
(* calls under way run into their waiting before anything else moves *)
Pending == (srv = "acc" /\ (~sock.open \/ q # <<>>)) \/ \E k \in Cl : hd[k] = "read" /\ (Len(cl[k].sent) > cl[k].done \/ cl[k].shut = 1)
Next == Acc \/ ReadAny \/ (~Pending /\ (Serve \/ GoSrv \/ GoHd \/ GoStop \/ Client \/ AnyStop))
Spec == Init /\ [][Next]_vars
HdStep(k) == ~Pending /\ (GoP1(k) \/ GoP2(k)) /\ Step("go", "c" \o ToString(k), 0, "")
StopStep(k) == ~Pending /\ (GoI1(k) \/ GoI2(k)) /\ Step("go", "s" \o ToString(k), 0, "")
Fair == /\ Spec /\ WF_vars(Serve) /\ WF_vars(Acc) /\ WF_vars(ReadAny) /\ WF_vars(~Pending /\ GoSrv)
        /\ \A i \in Cl : WF_vars(HdStep(i))
        /\ \A i \in 1..NStops : WF_vars(StopStep(i))
FairClients == Fair /\ \A i \in Cl : WF_vars(~Pending /\ Shut(i))

Followed == bad = ""
Released == srv = "ret" /\ mon.ret = 1 => ~sock.open
Unserved == \A k \in Cl : mon.con[k].late # 0 => hd[k] = "no"
Quits == (mon.ret = 1) ~> (srv = "ret")
Through == \A k \in Cl : (cl[k].shut = 1 /\ hd[k] \notin {"no", "done"}) ~> (hd[k] = "done")
Emit == hist' # hist => (IF IOEnv.EMIT = "1" THEN PrintT("SCRIPT " \o ToJson([steps |-> hist'])) ELSE TRUE)
=============================================================================
