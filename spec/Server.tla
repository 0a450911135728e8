------------------------------- MODULE Server -------------------------------
(* What a user of a server may rely on, followed along a recorded history:
   Serve and Stop, and the connections made to it.
   c.kind: "simple" one connection at a time, "nb" a handler per connection.
   c.ctor: 0 processor factory, separate factories for input and output;
   1 processor factory, one transport and one protocol factory; 2 processor
   factory, default transports and protocols; 3-5 the same with a processor.
   c.busy = 1: somebody else listens at the address.  c.nc: clients.
   Events (fields a, b, e: numbers; m, x: strings):
     serve, lcall, lret e, sret e        Serve, its listen, its return
     stopc a, stopr a e                  Stop number a, its return
     dcall a, dial a e, send a m, cclose a, rep a b e, ceof a
                                         client a: connects, sends a request of
                                         kind m, closes, gets reply b, sees the end
     acc a                               the transport accepted client a
     proc a b m pc ic oc x               a request: connection a, number b, kind m;
                                         the processor was made for pc, the protocols
                                         are over transports made for ic, oc as x
     pret a b, pend a                    done (b = 1: no more), nothing to read
     tclose a x                          a transport of connection a was closed
     gates b a                           threads run freely (b), but for connection a
     await a b e, aweof a e, join e, ret e, port e, isst e, stops e
                                         waited for: b replies, the end, all clients,
                                         the return of Serve; the port is free; stopped? *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
If(b, s, want) == IF b THEN Go(s) ELSE Bad(s, want)
NoCon == [dial |-> "no", late |-> 0, old |-> 0, acc |-> 0, sent |-> <<>>, started |-> 0, cur |-> 0, done |-> 0, ended |-> 0,
          closed |-> 0, rep |-> 0, tcl |-> {}, at |-> 0]
VInit(c) == [ph |-> "idle", run |-> 0, lst |-> 0, may |-> 0, must |-> 0, ret |-> 0, stops |-> {}, after |-> 0, nacc |-> 0,
             gates |-> 1, held |-> 0, con |-> [i \in 1..c.nc |-> NoCon]]
Ids(c) == 1..c.nc
(* the client is through: nothing more will be processed for it *)
Over(k) == k.closed = 1 \/ k.ended = 1 \/ (\E i \in 1..Len(k.sent) : k.sent[i] # "ok")
Live(k) == k.dial = "ok" /\ k.old = 0 /\ k.ended = 0
(* the server is free to work for connection a *)
Turn(c, s, a) == /\ s.ph = "serving" /\ s.may = 0 /\ s.lst = 1 /\ s.gates = 1 /\ s.held # a
                 /\ s.con[a].dial = "ok" /\ s.con[a].old = 0 /\ s.con[a].closed = 0
                 /\ c.kind = "simple" => /\ s.held = 0
                                         /\ \A d \in Ids(c) \ {a} : \/ s.con[d].dial \in {"no", "fail"} \/ Over(s.con[d])
                                                                  \/ (s.con[a].acc > 0 /\ s.con[d].acc = 0)
Reply(m) == m \in {"ok", "dec", "terr"}
VStep(c, s, ev) ==
  LET a == ev.a
      k == s.con[a]
      put(k2) == [s EXCEPT !.con[a] = k2]
  IN
  CASE ev.o = "serve" -> Go([s EXCEPT !.ph = "serving", !.run = 0, !.lst = 0, !.must = 0, !.ret = 0, !.after = 0,
                              !.may = IF s.stops # {} THEN 1 ELSE 0,
                              !.con = [i \in Ids(c) |-> [s.con[i] EXCEPT !.old = IF s.con[i].dial = "no" THEN 0 ELSE 1]]])
    [] ev.o = "lcall" -> Go([s EXCEPT !.run = 1])
    [] ev.o = "lret" -> Go([s EXCEPT !.lst = IF ev.e = 0 THEN 1 ELSE 0])
    [] ev.o = "sret" -> IF ev.e >= 2 THEN Bad(s, "no panic")
                        ELSE IF c.busy = 1 /\ s.may = 0 THEN If(ev.e = 1, [s EXCEPT !.ph = "done"], "an error from Serve: the address is in use")
                        ELSE If(s.may = 1 \/ (c.busy = 1 /\ ev.e = 1), [s EXCEPT !.ph = "done"], "Serve goes on until it is stopped")
    [] ev.o = "stopc" -> Go([s EXCEPT !.stops = s.stops \cup {<<a, IF s.ph = "serving" /\ s.run = 1 THEN 1 ELSE 0>>},
                              !.may = IF s.ph = "serving" THEN 1 ELSE s.may,
                              !.must = IF s.ph = "serving" /\ s.run = 1 THEN 1 ELSE s.must])
    [] ev.o = "stopr" -> LET hit == <<a, 1>> \in s.stops
                         IN If(ev.e = 0, [s EXCEPT !.stops = {t \in s.stops : t[1] # a},
                                           !.ret = IF hit THEN 1 ELSE s.ret,
                                           !.con = IF hit /\ s.ret = 0 THEN [i \in Ids(c) |-> [s.con[i] EXCEPT !.at = s.con[i].done]] ELSE s.con],
                               "Stop succeeds")
    [] ev.o = "dcall" -> Go(put([NoCon EXCEPT !.dial = "try", !.late = IF s.ret = 0 THEN 0 ELSE IF s.ph = "done" THEN 2 ELSE 1]))
    [] ev.o = "dial" -> IF ev.e # 0 THEN If(~(s.ph = "serving" /\ s.lst = 1 /\ s.may = 0), put([k EXCEPT !.dial = "fail"]), "a running server accepts connections")
                        ELSE If(~(s.ph = "done" /\ s.must = 1 /\ k.late = 2), put([k EXCEPT !.dial = "ok"]), "no connection to a stopped server")
    [] ev.o = "send" -> Go(put([k EXCEPT !.sent = Append(k.sent, ev.m)]))
    [] ev.o = "cclose" -> Go(put([k EXCEPT !.closed = 1]))
    [] ev.o = "acc" -> If(k.acc = 0 /\ k.dial # "no" /\ s.ph # "idle", [s EXCEPT !.con[a].acc = s.nacc + 1, !.nacc = s.nacc + 1], "each connection is accepted once")
    [] ev.o = "proc" ->
        IF k.dial = "no" THEN Bad(s, "requests of clients only")
        ELSE IF k.late # 0 THEN Bad(s, "a connection made after the stop is not served")
        ELSE IF k.ended = 1 THEN Bad(s, "no more requests on an ended connection")
        ELSE IF k.cur # 0 \/ ev.b # k.started + 1 \/ ev.b > Len(k.sent) THEN Bad(s, <<"request number", k.started + 1>>)
        ELSE IF ev.m # k.sent[ev.b] THEN Bad(s, <<"request", k.sent[ev.b]>>)
        ELSE IF ev.pc # (IF c.ctor <= 2 THEN a ELSE 0) \/ ev.ic # a \/ ev.oc # a THEN Bad(s, "the processor, transports and protocols of the connection")
        ELSE IF ev.x # (IF c.ctor \in {0, 3} THEN "in/in/out/out" ELSE "io/io/io/io") THEN Bad(s, "input by the input factories, output by the output factories")
        ELSE IF c.kind = "simple" /\ k.old = 0 /\ \E d \in Ids(c) \ {a} : s.con[d].old = 0 /\ (s.con[d].cur # 0 \/ (s.con[d].acc > 0 /\ s.con[d].acc < k.acc /\ s.con[d].ended = 0))
             THEN Bad(s, "one connection after the other")
        ELSE IF c.kind = "simple" /\ s.ret = 1 /\ s.after >= 1 THEN Bad(s, "no further requests after the stop")
        ELSE Go([s EXCEPT !.con[a].started = ev.b, !.con[a].cur = ev.b, !.after = IF s.ret = 1 THEN s.after + 1 ELSE s.after])
    [] ev.o = "pret" -> Go(put([k EXCEPT !.cur = 0, !.done = k.started, !.ended = IF ev.b = 1 THEN 1 ELSE k.ended]))
    [] ev.o = "pend" -> If(k.closed = 1 \/ s.may = 1, put([k EXCEPT !.ended = 1]), "the connection is not cut off")
    [] ev.o = "tclose" -> If(k.ended = 1 \/ s.may = 1, put([k EXCEPT !.tcl = k.tcl \cup {ev.x}]), "transports are closed when the connection is through")
    [] ev.o = "rep" -> If(ev.e = 0 /\ ev.b = k.rep + 1 /\ ev.b <= k.started /\ Reply(k.sent[ev.b]), put([k EXCEPT !.rep = ev.b]), <<"reply number", k.rep + 1, "of", k.started>>)
    [] ev.o = "ceof" -> If(k.ended = 1 \/ k.closed = 1 \/ s.may = 1, s, "the connection stays open until it is through")
    [] ev.o = "gates" -> Go([s EXCEPT !.gates = ev.b, !.held = a])
    [] ev.o = "await" -> If(ev.e = 0 \/ ~(Turn(c, s, a) /\ ev.b <= Len(k.sent) /\ (\A i \in 1..ev.b - 1 : k.sent[i] = "ok") /\ Reply(k.sent[ev.b])), s, <<"the reply to request", ev.b>>)
    [] ev.o = "aweof" -> If(ev.e = 0 \/ ~(Turn(c, s, a) /\ \E i \in 1..Len(k.sent) : k.sent[i] # "ok"), s, "the connection is closed")
    [] ev.o = "join" -> If(ev.e = 0 \/ s.may = 1 \/ s.ph # "serving" \/ s.gates = 0 \/ s.held # 0, s, "all clients are served")
    [] ev.o = "ret" -> If(ev.e = 0 \/ s.gates = 0 \/ s.held # 0
                          \/ ~((s.must = 1 \/ c.busy = 1) /\ (c.kind = "nb" \/ \A d \in Ids(c) : Live(s.con[d]) => s.con[d].closed = 1 \/ Len(s.con[d].sent) > s.con[d].at)),
                          s, "Serve returns")
    [] ev.o = "port" -> If(ev.e = 0 \/ c.busy = 1 \/ ~(s.ph = "done" /\ s.must = 1), s, "the port is free")
    [] ev.o = "isst" -> If(IF s.may = 0 /\ s.ph = "serving" /\ s.run = 1 THEN ev.b = 0 ELSE IF s.ret = 1 THEN ev.b = 1 ELSE TRUE, s, "IsStopped tells whether the server was stopped")
    [] ev.o = "stops" -> If(ev.e = 0, s, "every Stop returns")
    [] OTHER -> Bad(s, "harness: unknown event")
VFinal(c, s) == IF \E a \in Ids(c) : s.con[a].ended = 1 /\ s.con[a].acc > 0 /\ s.con[a].tcl # (IF c.ctor \in {0, 3} THEN {"in", "out"} ELSE IF c.ctor \in {1, 4} THEN {"io"} ELSE s.con[a].tcl)
                THEN "the transports of a connection that is through are closed" ELSE ""
=============================================================================
