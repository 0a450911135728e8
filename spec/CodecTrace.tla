----------------------------- MODULE CodecTrace -----------------------------
(* Recorded histories of real protocol objects, followed by the protocol state
   machines.  For the JSON protocols toks are the tokens of wire, each with its
   start s and end e.  A case: kind "w" (write calls; wire = the bytes
   the transport got) or "r" (read calls on the stream wire; rem = bytes left
   in the transport at the end).  ev.e: 0 success, 1 error (ev.ek its kind),
   2 panic, 3 hang.                                                        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
B == INSTANCE BinaryProtocol
C == INSTANCE CompactProtocol
J == INSTANCE JsonProtocol
RD(c, st, op) == CASE c.proto = "bin" -> B!BinR(c, st, c.wire, op) [] c.proto = "com" -> C!ComR(c, st, c.wire, op)
                   [] OTHER -> J!JsonR(c.proto = "json", st, c.toks, op)
A == INSTANCE AppException WITH R <- RD
IsJson(c) == c.proto \in {"json", "sjson"}

AllCases == ndJsonDeserialize(IOEnv.CASES)

Init0(c) == IF IsJson(c) THEN [pos |-> 1, w |-> IF c.kind = "w" THEN J!JsonWInit ELSE J!JsonRInit]
            ELSE IF c.kind = "w"
            THEN [pos |-> 1, w |-> IF c.proto = "bin" THEN B!BinWInit ELSE C!ComWInit]
            ELSE [pos |-> 1, w |-> IF c.proto = "bin" THEN B!BinRInit ELSE C!ComRInit]

Bad(st, want) == [v |-> "bad", s |-> st, want |-> want]
Go(st) == [v |-> "go", s |-> st]
Stop(st) == [v |-> "stop", s |-> st]

(* an exception written: any of the forms the specification allows *)
WR(c, w, op) == CASE c.proto = "bin" -> B!BinW(c, w, op) [] c.proto = "com" -> C!ComW(c, w, op)
                  [] OTHER -> J!JsonW(c.proto = "json", w, op)
RECURSIVE WAll(_, _, _, _)
WAll(c, w, ops, out) == IF ops = <<>> THEN [out |-> out, st |-> w]
                        ELSE LET d == WR(c, w, Head(ops)) IN WAll(c, d.st, Tail(ops), out \o d.out)
XStep(c, st, ev) ==
  LET ds == {WAll(c, st.w, f, <<>>) : f \in A!Forms(A!Made(ev))}
      Is(d) == LET n == Len(d.out)
               IN IF IsJson(c) THEN st.pos + n <= Len(c.toks) /\ \A i \in 1..n : J!Match(d.out[i], c.toks[st.pos + i - 1])
                  ELSE st.pos + n - 1 <= Len(c.wire) /\ SubSeq(c.wire, st.pos, st.pos + n - 1) = d.out
      good == {d \in ds : Is(d)}
  IN IF ev.e # 0 THEN Bad(st, "success")
     ELSE IF good = {} THEN Bad(st, <<"one of", ds>>)
     ELSE LET d == CHOOSE x \in good : TRUE IN Go([pos |-> st.pos + Len(d.out), w |-> d.st])

WStep(c, st, ev) ==
  LET d == IF c.proto = "bin" THEN B!BinW(c, st.w, ev) ELSE C!ComW(c, st.w, ev)
      n == Len(d.out)
      got == SubSeq(c.wire, st.pos, st.pos + n - 1)
  IN IF ev.e # 0 THEN Bad(st, "success")
     ELSE IF st.pos + n - 1 > Len(c.wire) \/ got # d.out THEN Bad(st, d.out)
     ELSE IF ev.o = "Flush" /\ ev.n # st.pos - 1 THEN Bad(st, <<"flushed", st.pos - 1>>)
     ELSE Go([pos |-> st.pos + n, w |-> d.st])

JWStep(c, st, ev) ==
  LET d == J!JsonW(c.proto = "json", st.w, ev)
      n == Len(d.out)
      to == st.pos + n
  IN IF ev.e # 0 THEN Bad(st, "success")
     ELSE IF to > Len(c.toks) \/ \E i \in 1..n : ~J!Match(d.out[i], c.toks[st.pos + i - 1])
          THEN Bad(st, <<d.out, "instead of", SubSeq(c.toks, st.pos, IF to > Len(c.toks) THEN Len(c.toks) ELSE to - 1)>>)
     ELSE IF ev.o = "Flush" /\ (c.toks[to].s < ev.n \/ (to > 1 /\ c.toks[to - 1].e > ev.n)) THEN Bad(st, <<"flushed", c.toks[to].s>>)
     ELSE Go([pos |-> to, w |-> d.st])

Matches(ev, res) == \A f \in DOMAIN res : IF f = "d" THEN J!SameDouble(ev.v, res.d) ELSE ev[f] = res[f]

RStep(c, st, ev) ==
  LET d == IF ev.o = "RAx" THEN A!Read(c, st.w) ELSE RD(c, st.w, ev)
  IN IF ev.e = 3 /\ d.r = "any" THEN Stop(st)
     ELSE IF ev.e >= 2 THEN Bad(st, <<"no panic or hang", d.r, d.res>>)
     ELSE IF d.r = "any" THEN Stop(st)
     ELSE IF ev.e = 1 THEN
       IF d.r = "ok" THEN Bad(st, d.res)
       ELSE IF d.ek >= 0 /\ ev.ek # d.ek THEN Bad(st, <<"error kind", d.ek>>)
       ELSE Stop(st)
     ELSE IF d.r = "err" THEN Bad(st, <<"error", d.ek>>)
     ELSE IF ~Matches(ev, d.res) THEN Bad(st, d.res)
     ELSE Go([pos |-> st.pos, w |-> d.st])

Step0(c, st, ev) == IF ev.o = "AxW" THEN XStep(c, st, ev) ELSE IF c.kind = "w" /\ IsJson(c) THEN JWStep(c, st, ev) ELSE IF c.kind = "w" THEN WStep(c, st, ev) ELSE RStep(c, st, ev)

Final0(c, st) ==
  IF IsJson(c) THEN IF c.kind = "r" \/ c.toks[st.pos].k = "end" THEN "" ELSE "no further output"
  ELSE IF c.kind = "w"
  THEN IF st.pos = Len(c.wire) + 1 THEN "" ELSE "no further bytes"
  ELSE IF c.rem = -1 \/ c.rem = Len(c.wire) - st.w.p + 1 THEN ""
       ELSE "position after what was read"

VARIABLES ci, oi, s, status
T == INSTANCE CaseTrace WITH Cases <- AllCases, InitOf <- Init0, Step <- Step0, Final <- Final0
Spec == T!Init /\ [][T!Next]_<<ci, oi, s, status>>
=============================================================================
