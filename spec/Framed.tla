------------------------------- MODULE Framed -------------------------------
(* The framed transport over an underlying byte transport.
   State:  w    bytes written since the last flush
           cur  undelivered bytes of the frame being read
           in   bytes of the underlying stream not yet passed
           pos  underlying bytes up to the end of the frame last entered
           dead an underlying error has been reported
   A recorded event ev carries what happened at the underlying transport:
   out (bytes that reached it), fl (flushes of it), pos (bytes taken from it
   since the start).                                                       *)
EXTENDS Bytes, TLC
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
Stop(s) == [v |-> "stop", s |-> s, want |-> ""]

FInit(in) == [w |-> <<>>, cur |-> <<>>, in |-> in, pos |-> 0, dead |-> FALSE]
Frame(v) == IntOfNat(Len(v), 4) \o v
Min(a, b) == IF a < b THEN a ELSE b
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Drop(s, n) == SubSeq(s, n + 1, Len(s))

(* enter the next non-empty frame: "ok" a whole one, "cut" the stream ends or
   fails first, "neg" a negative length *)
RECURSIVE NextFrame(_)
NextFrame(s) ==
  IF Len(s.in) < 4 THEN [r |-> "cut", s |-> s]
  ELSE IF s.in[1] >= 128 THEN [r |-> "neg", s |-> s]
  ELSE LET n == NatOf(Take(s.in, 1, 4)) IN
       IF n > Len(s.in) - 4 THEN [r |-> "cut", s |-> s]
       ELSE LET s2 == [s EXCEPT !.in = Drop(s.in, 4 + n), !.cur = Take(s.in, 5, n), !.pos = s.pos + 4 + n]
            IN IF n = 0 THEN NextFrame(s2) ELSE [r |-> "ok", s |-> s2]
Enter(s) == IF s.cur # <<>> THEN [r |-> "ok", s |-> s] ELSE NextFrame(s)

(* what reading exactly k bytes gives *)
RECURSIVE Exactly(_, _, _)
Exactly(s, k, got) ==
  IF k = 0 THEN [r |-> "ok", s |-> s, v |-> got]
  ELSE LET f == Enter(s) IN
       IF f.r # "ok" THEN [r |-> f.r, s |-> f.s, v |-> got]
       ELSE LET n == Min(k, Len(f.s.cur))
            IN Exactly([f.s EXCEPT !.cur = Drop(f.s.cur, n)], k - n, got \o Take(f.s.cur, 1, n))

Quiet(ev) == ev.out = <<>> /\ ev.fl = 0
FStep(c, s, ev) ==
  IF ev.e >= 2 THEN Bad(s, "no panic, no hang")
  ELSE CASE ev.o = "W" ->
         IF ev.e # 0 \/ ev.n # Len(ev.v) \/ ~Quiet(ev) THEN Bad(s, "buffered whole, nothing sent before the flush")
         ELSE Go([s EXCEPT !.w = s.w \o ev.v])
    [] ev.o = "F" ->
         IF c.failw = 0 /\ c.failf = 0
         THEN IF ev.e = 0 /\ ev.out = Frame(s.w) /\ ev.fl = 1
              THEN Go([s EXCEPT !.w = <<>>, !.in = IF c.loop = 1 THEN s.in \o ev.out ELSE s.in])
              ELSE Bad(s, <<"frame, flushed once", Frame(s.w)>>)
         ELSE IF ev.bad = 0     \* the underlying transport took everything this time
         THEN IF ev.e = 0 /\ ev.out = Frame(s.w) /\ ev.fl = 1 THEN Go([s EXCEPT !.w = <<>>])
              ELSE Bad(s, <<"frame, flushed once", Frame(s.w)>>)
         ELSE IF ev.e = 1 /\ IsPrefix(ev.out, Frame(s.w)) THEN Stop(s)
              ELSE Bad(s, "an error: the underlying transport failed")
    [] ev.o \in {"R", "RA"} /\ ev.k = 0 ->
         IF ev.n # 0 THEN Bad(s, "no bytes") ELSE IF ev.pos > s.pos THEN Stop(s) ELSE Go(s)
    [] ev.o = "R" ->
         LET f == Enter(s) IN
         IF ev.out # <<>> THEN Bad(s, "reading sends nothing")
         ELSE IF f.r = "ok"
         THEN IF ev.e # 0 THEN Bad(s, <<"data", f.s.cur>>)
              ELSE IF ev.n < 1 \/ ev.n > Min(ev.k, Len(f.s.cur)) \/ ev.v # Take(f.s.cur, 1, ev.n) THEN Bad(s, <<"data of this frame", f.s.cur>>)
              ELSE IF ev.pos > f.s.pos THEN Bad(s, <<"nothing taken beyond the current frame", f.s.pos>>)
              ELSE Go([f.s EXCEPT !.cur = Drop(f.s.cur, ev.n)])
         ELSE IF ev.e # 1 \/ ev.n # 0 THEN Bad(s, <<"an error and no data", f.r>>)
         ELSE IF f.r = "neg" THEN Stop(s)
         ELSE IF ev.ek # c.endk THEN Bad(s, <<"error of kind", c.endk>>)
         ELSE IF c.loop = 1 THEN Go(f.s)
         ELSE Go([f.s EXCEPT !.in = <<>>, !.dead = TRUE])
    [] ev.o = "RA" ->
         LET x == Exactly(s, ev.k, <<>>) IN
         IF x.r = "ok"
         THEN IF ev.e # 0 \/ ev.v # x.v \/ ev.n # ev.k THEN Bad(s, <<"exactly", x.v>>)
              ELSE IF ev.pos > x.s.pos THEN Bad(s, <<"nothing taken beyond the current frame", x.s.pos>>)
              ELSE Go(x.s)
         ELSE IF ev.e # 1 THEN Bad(s, <<"an error", x.r>>)
         ELSE IF x.r = "neg" THEN Stop(s)
         ELSE IF ev.ek # c.endk THEN Bad(s, <<"error of kind", c.endk>>)
         ELSE IF c.loop = 1 /\ ev.n = Len(x.v) THEN Go(x.s)
         ELSE IF c.loop = 1 THEN Stop(s)
         ELSE Go([x.s EXCEPT !.in = <<>>, !.cur = <<>>, !.dead = TRUE])
    [] OTHER -> IF Quiet(ev) THEN Go(s) ELSE Bad(s, "nothing sent")
=============================================================================
