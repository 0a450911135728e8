---------------------------- MODULE TransportMC ----------------------------
(* Every bounded history of calls on each kind of transport, answered as its
   specification allows (reads: every allowed count).  The invariants say what
   the specified transports are for: nothing lost, invented, duplicated or
   reordered between the two ends.  With EMIT set, completed histories are
   printed, to be replayed on the real code.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Kind, MaxOps, Small
F == INSTANCE Framed
P == INSTANCE Pipe
A == INSTANCE ReadAll
K == INSTANCE Socket
H == INSTANCE HttpClient
VARIABLES c, s, hist, nw, nr, sent, recv, over
(* nw: bytes numbered so far towards the far end; nr: from it (peer's side)
   sent: bytes confirmed passed to the far end (current connection)
   recv: bytes delivered to the reader; over: stopped                     *)
vars == <<c, s, hist, nw, nr, sent, recv, over>>
Num(from, n) == [i \in 1..n |-> (from + i) % 256]
Pick(a, b) == IF Small THEN a ELSE b

(* ------------------------------ configurations ------------------------- *)
RECURSIVE Cat(_)
Cat(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs) \o Cat(Tail(fs))
FrameSizes == {<<>>} \cup {<<a>> : a \in {0, 1, 3}} \cup {<<a, b>> : a \in {0, 1, 3}, b \in {0, 1, 3}} \cup {<<2, 0, 1>>, <<1, 0, 0>>}
RECURSIVE Frames(_, _)
Frames(sz, from) == IF sz = <<>> THEN <<>> ELSE F!Frame(Num(from, Head(sz))) \o Frames(Tail(sz), from + Head(sz))
Wires == UNION {LET w == Frames(sz, 100) IN {SubSeq(w, 1, k) : k \in 0..Len(w)} : sz \in FrameSizes}
         \cup {Frames(sz, 100) \o <<255, 255, 255, 254, 1, 2>> : sz \in {<<>>, <<1>>}}
Fcfg(w, l) == [kind |-> "framed", wire |-> w, loop |-> l, failw |-> 0, failf |-> 0, endk |-> 4]
Icfg(m, r, w) == [kind |-> "iostream", mode |-> m, hasr |-> r, hasw |-> w, wire |-> Num(100, 4), failw |-> 0, failf |-> 0, endk |-> 4]
Ents == {<<n, k>> : n \in 0..3, k \in {-1, 4, 1}} \ {<<0, -1>>}
Scripts == {<<>>} \cup {<<a>> : a \in Ents} \cup {<<a, b>> : a \in Ents, b \in Ents} \cup {<<<<1, -1>>, a, b>> : a \in Ents \cup {<<0, -1>>}, b \in Ents}
Ans(st, b, cut) == [st |-> st, body |-> b, cut |-> cut, chnk |-> 0]
AnsLists == {<<Ans(200, Num(200, 3), 0)>>, <<Ans(200, Num(200, 3), 0), Ans(500, Num(220, 2), 0)>>,
             <<Ans(404, Num(200, 2), 0), Ans(200, Num(210, 2), 0)>>, <<Ans(200, <<>>, 0), Ans(0, <<>>, 0), Ans(200, <<7>>, 0)>>,
             <<Ans(200, Num(200, 2), 1), Ans(200, Num(210, 1), 0)>>}
Configs == CASE Kind = "framed" -> {Fcfg(<<>>, 1)}
             [] Kind = "frames" -> {Fcfg(w, 0) : w \in Wires}
             [] Kind = "membuf" -> {[kind |-> "membuf"]}
             [] Kind = "iostream" -> {Icfg("rw", 1, 1), Icfg("randw", 1, 1), Icfg("r", 1, 0), Icfg("w", 0, 1), Icfg("none", 0, 0)}
             [] Kind = "readall" -> {[kind |-> "readall", script |-> x, exact |-> 1] : x \in Scripts}
             [] Kind = "sock" -> {[kind |-> "sock", conn |-> x, badaddr |-> 0] : x \in {0, 1}} \cup {[kind |-> "sock", conn |-> 0, badaddr |-> b] : b \in 1..Pick(1, 3)}
             [] Kind = "http" -> {[kind |-> "http", post |-> 1, answers |-> a, maxconns |-> 8] : a \in AnsLists} \cup {[kind |-> "http", post |-> 0, answers |-> <<Ans(200, Num(200, 3), 0)>>, maxconns |-> 8]}
InitOf(x) == CASE x.kind = "framed" -> F!FInit(x.wire) [] x.kind = "membuf" -> <<>> [] x.kind = "iostream" -> P!SInit(x)
               [] x.kind = "readall" -> A!AInit(x) [] x.kind = "sock" -> K!KInit(x) [] x.kind = "http" -> H!HInit(x)
StepOf(ev) == CASE c.kind = "framed" -> F!FStep(c, s, ev) [] c.kind = "membuf" -> P!MStep(c, s, ev) [] c.kind = "iostream" -> P!SStep(c, s, ev)
               [] c.kind = "readall" -> A!AStep(c, s, ev) [] c.kind = "sock" -> K!KStep(c, s, ev) [] c.kind = "http" -> H!HStep(c, s, ev)

(* ------------------------------ answers -------------------------------- *)
Base == [o |-> "", v |-> <<>>, k |-> 0, n |-> 0, e |-> 0, ek |-> -1, out |-> <<>>, fl |-> 0, pos |-> 0, bad |-> 0, own |-> 0, got |-> <<>>, reqs |-> <<>>]
Ev(o) == [Base EXCEPT !.o = o]
Fail(ev, k) == [ev EXCEPT !.e = 1, !.ek = k]
Reads(o, q, k, ek) ==      \* reading k from queue q that ends with error ek
  IF k = 0 THEN {[Ev(o) EXCEPT !.k = 0]}
  ELSE IF o = "R" THEN IF q = <<>> THEN {Fail([Ev("R") EXCEPT !.k = k], ek)}
                       ELSE {[Ev("R") EXCEPT !.k = k, !.n = n, !.v = SubSeq(q, 1, n)] : n \in 1..(IF k < Len(q) THEN k ELSE Len(q))}
  ELSE IF k <= Len(q) THEN {[Ev("RA") EXCEPT !.k = k, !.n = k, !.v = SubSeq(q, 1, k)]}
  ELSE {Fail([Ev("RA") EXCEPT !.k = k, !.n = Len(q), !.v = q], ek)}
Writes(o, sizes) == {[Ev(o) EXCEPT !.v = Num(nw, n), !.n = n] : n \in sizes}
ReadSet(q, ek) == UNION {Reads("R", q, k, ek) : k \in Pick({1, 2}, {0, 1, 2, 3})} \cup UNION {Reads("RA", q, k, ek) : k \in Pick({2}, {1, 2, 4})}

FramedReads ==
  LET f == F!Enter(s)
      ra(k) == LET x == F!Exactly(s, k, <<>>) IN
               IF x.r = "ok" THEN [Ev("RA") EXCEPT !.k = k, !.n = k, !.v = x.v, !.pos = x.s.pos]
               ELSE Fail([Ev("RA") EXCEPT !.k = k, !.n = Len(x.v), !.v = x.v], 4)
  IN (IF f.r = "ok" THEN UNION {{[x EXCEPT !.pos = f.s.pos] : x \in Reads("R", f.s.cur, k, 4)} : k \in {1, 2, 5}}
      ELSE {Fail([Ev("R") EXCEPT !.k = k], 4) : k \in {1, 2}})
     \cup {ra(k) : k \in {1, 2, 4}} \cup Reads("R", <<>>, 0, 4)

Answers ==
  CASE Kind = "framed" -> Writes("W", {0, 1, 2}) \cup {[Ev("F") EXCEPT !.out = F!Frame(s.w), !.fl = 1]} \cup FramedReads
    [] Kind = "frames" -> FramedReads
    [] Kind = "membuf" -> Writes("W", Pick({1}, {0, 1, 2})) \cup Writes("WS", {2}) \cup Writes("RF", {2}) \cup ReadSet(s, 4)
         \cup {IF s = <<>> THEN Fail(Ev("RB"), -1) ELSE [Ev("RB") EXCEPT !.n = s[1]], [Ev("WT") EXCEPT !.v = s, !.n = Len(s)],
               [Ev("Len") EXCEPT !.n = Len(s)], [Ev("Bytes") EXCEPT !.v = s], Ev("Reset"), Ev("Close")}
    [] Kind = "iostream" ->
         (IF s.w THEN UNION {{[x EXCEPT !.out = SubSeq(s.acc \o x.v, Len(s.outp) + 1, m)] : m \in {Len(s.outp), Len(s.acc \o x.v)}} : x \in Writes("W", {0, 1, 2})}
                 \cup {[Ev("F") EXCEPT !.out = SubSeq(s.acc, Len(s.outp) + 1, Len(s.acc))]}
          ELSE {Fail([Ev("W") EXCEPT !.v = Num(nw, 1)], 1), Fail(Ev("F"), 1)})
         \cup (IF s.r THEN ReadSet(s.in, 4) ELSE {Fail([Ev("R") EXCEPT !.k = 2], 1), Fail([Ev("RA") EXCEPT !.k = 1], 1)})
         \cup {Ev("Close")}
    [] Kind = "readall" -> LET one(k) == LET x == A!Walk(s.es, k, 0) IN
                                IF x.ok THEN [Ev("RA") EXCEPT !.k = k, !.n = k, !.v = A!Data(s.p, k), !.pos = s.p + k]
                                ELSE Fail([Ev("RA") EXCEPT !.k = k, !.n = x.got, !.v = A!Data(s.p, x.got), !.pos = s.p + x.got], x.ek)
                           IN {one(k) : k \in {0, 1, 2, 3, 5}}
    [] Kind = "sock" ->
         {IF s.open THEN Fail(Ev("Open"), 2) ELSE IF s.lis THEN Ev("Open") ELSE Fail(Ev("Open"), 1)}
         \cup (IF s.open THEN {[x EXCEPT !.got = SubSeq(s.w, 1, s.f)] : x \in Writes("W", {1, 2})} \cup {[Ev("F") EXCEPT !.got = s.w]} ELSE {Fail([Ev("W") EXCEPT !.v = Num(nw, 1)], 1), Fail(Ev("F"), 1)})
         \cup (IF ~s.open THEN {Fail([Ev("R") EXCEPT !.k = 2], 1), Fail([Ev("RA") EXCEPT !.k = 1], 1)}
               ELSE IF s.peer = "reset" THEN {}
               ELSE IF s.peer # "up" THEN Reads("R", s.in, 2, 4) \cup Reads("RA", s.in, 3, 4)
               ELSE (IF s.in = <<>> THEN {} ELSE Reads("R", s.in, 2, 4)) \cup (IF Len(s.in) >= 3 THEN Reads("RA", s.in, 3, 4) ELSE {}))
         \cup {[Ev("Close") EXCEPT !.got = SubSeq(s.w, 1, s.f)], [Ev("Interrupt") EXCEPT !.got = SubSeq(s.w, 1, s.f)]}
         \cup (IF s.open /\ s.peer = "up" THEN {[Ev("PSend") EXCEPT !.v = Num(100 + nr, 2)], Ev("PEof")} ELSE {})
         \cup (IF s.open THEN {Ev("PClose")} ELSE {})
         \cup (IF s.lis THEN {Ev("LOff")} ELSE {Ev("LOn")})
    [] Kind = "http" ->
         (IF s.open /\ c.post = 1
          THEN Writes("W", {0, 1, 2}) \cup
               {LET a == H!AnswerOf(c, s.ai + 1)
                    f == [Ev("F") EXCEPT !.reqs = <<[m |-> "POST", ct |-> "application/x-thrift", body |-> s.req]>>]
                IN IF H!Good(a) THEN f ELSE Fail(f, 0)}
          ELSE {Fail([Ev("W") EXCEPT !.v = Num(nw, 1)], 1), Fail(Ev("F"), 1)})
         \cup (IF s.has THEN ReadSet(s.body, 4) ELSE {Fail([Ev("R") EXCEPT !.k = 2], 1), Fail([Ev("RA") EXCEPT !.k = 1], 1)})
         \cup {Ev("Close")}

(* ------------------------------ behaviour ------------------------------ *)
Init == /\ c \in Configs /\ s = InitOf(c) /\ hist = <<>> /\ nw = 0 /\ nr = 0 /\ sent = <<>> /\ recv = <<>> /\ over = FALSE
IsData(ev) == ev.o \in {"R", "RA", "WT"} \/ (ev.o = "RB" /\ ev.e = 0)
Resets(ev) == ev.o \in {"Reset", "Close", "Interrupt", "Open", "F"}
Next == /\ ~over /\ Len(hist) < MaxOps
        /\ \E ev \in Answers :
             LET r == StepOf(ev) IN
             /\ Assert(r.v # "bad", <<"the specification forbids its own answer", c, s, ev, r>>)
             /\ hist' = Append(hist, [o |-> ev.o, v |-> IF ev.o \in {"W", "WS", "RF", "PSend"} THEN ev.v ELSE <<>>, k |-> ev.k, n |-> 0])
             /\ s' = r.s /\ over' = (r.v = "stop")
             /\ nw' = nw + IF ev.o \in {"W", "WS", "RF"} THEN Len(ev.v) ELSE 0
             /\ nr' = nr + IF ev.o = "PSend" THEN 2 ELSE 0
             /\ sent' = CASE Kind = "framed" /\ ev.o = "F" -> sent \o s.w
                          [] Kind = "iostream" -> sent \o ev.out
                          [] Kind = "sock" /\ ev.o = "F" /\ ev.e = 0 /\ s.peer # "gone" -> ev.got
                          [] Kind = "sock" /\ ev.o \in {"Open", "Close", "Interrupt"} /\ ev.e = 0 -> <<>>
                          [] Kind = "http" /\ ev.reqs # <<>> -> sent \o ev.reqs[1].body
                          [] OTHER -> sent
             /\ recv' = IF Kind = "http" /\ ev.o = "F" THEN <<>>
                        ELSE IF Kind = "sock" /\ ev.o = "Open" /\ ev.e = 0 THEN <<>>
                        ELSE IF ev.o = "RB" /\ ev.e = 0 THEN Append(recv, ev.n)
                        ELSE IF ev.o \in {"R", "RA", "WT"} THEN recv \o ev.v ELSE recv
             /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
View == <<c, s, nw, nr, sent, recv, over, Len(hist)>>

Increasing(q) == \A i, j \in 1..Len(q) : i < j => q[i] < q[j]
RECURSIVE Payload(_)
Payload(in) == IF in = <<>> THEN <<>> ELSE LET n == F!NatOf(SubSeq(in, 1, 4)) IN SubSeq(in, 5, 4 + n) \o Payload(SubSeq(in, 5 + n, Len(in)))
NoResets == \A i \in 1..Len(hist) : hist[i].o \notin {"Reset", "Close"}
Faithful ==
  over \/
  CASE Kind = "framed" -> /\ recv \o s.cur \o Payload(s.in) = sent          \* nothing lost or reordered across frames
                          /\ sent \o s.w = Num(0, nw)
    [] Kind = "frames" -> Increasing(recv)
    [] Kind = "membuf" -> Increasing(recv \o s) /\ (NoResets => recv \o s = Num(0, nw))
    [] Kind = "iostream" -> F!IsPrefix(sent, s.acc) /\ F!IsPrefix(recv, Num(100, 4)) /\ (c.hasw = 1 /\ s.w => s.acc = Num(0, nw))
    [] Kind = "readall" -> recv = A!Data(0, Len(recv))
    [] Kind = "sock" -> Increasing(recv) /\ F!IsPrefix(sent, s.w) /\ Increasing(sent)   \* bytes of one connection only, once each
    [] Kind = "http" -> Increasing(sent) /\ Increasing(recv)
Emit == (over \/ Len(hist) = MaxOps) /\ IOEnv.EMIT = "1" => PrintT("SCRIPT " \o ToJson([c |-> c, ops |-> hist]))
=============================================================================
