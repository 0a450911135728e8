------------------------------- MODULE Errors -------------------------------
(* What an error is called: an error is [c, k, m]: its class ("nil" no error,
   "eof" the plain end of a stream, "b64" corrupt base64, "kind" an error that
   carries a kind, "other" any other), its kind (-1: none) and its message.  *)
EXTENDS Integers, Sequences, TLC
UNKNOWN == 0  NOT_OPEN == 1  ALREADY_OPEN == 2  TIMED_OUT == 3  END_OF_FILE == 4
INVALID_DATA == 1  BAD_VERSION == 4
None == [c |-> "nil", k |-> -1, m |-> <<>>]
EOFText == <<69, 79, 70>>
(* an error by the way it was made *)
Made(b) == CASE b.c = "nil" -> None
             [] b.c = "eof" -> [c |-> "eof", k |-> -1, m |-> EOFText]
             [] b.c = "b64" -> [c |-> "b64", k |-> -1, m |-> b.m]
             [] b.c \in {"T", "P", "own"} -> [c |-> "kind", k |-> b.k, m |-> b.m]
             [] b.c \in {"Tk", "Pk"} -> [c |-> "kind", k |-> b.k, m |-> <<>>]
             [] b.c \in {"Tm", "Pm"} -> [c |-> "kind", k |-> UNKNOWN, m |-> b.m]
             [] b.c \in {"T0", "P0"} -> [c |-> "kind", k |-> UNKNOWN, m |-> <<>>]
             [] OTHER -> [c |-> "other", k |-> -1, m |-> b.m]
(* wrapped as an exception (E), a transport (T) or protocol (P) exception, or
   a transport exception as a protocol exception (PT) *)
Wrapped(o, e) ==
  IF o = "E" \/ e.c \in {"nil", "kind"} THEN e
  ELSE [e EXCEPT !.c = "kind", !.k = IF o = "T" /\ e.c = "eof" THEN END_OF_FILE
                                     ELSE IF o = "P" /\ e.c = "b64" THEN INVALID_DATA ELSE UNKNOWN]
(* wrapped with the place it happened at *)
AtPlace(e) == IF e.k = UNKNOWN THEN INVALID_DATA ELSE e.k

(* text m holds the texts ps one after another *)
IsAt(m, x, i) == i + Len(x) - 1 <= Len(m) /\ SubSeq(m, i, i + Len(x) - 1) = x
RECURSIVE HoldsFrom(_, _, _)
HoldsFrom(m, ps, i) == IF ps = <<>> THEN TRUE
  ELSE LET x == Head(ps)
           S == {j \in i..(Len(m) - Len(x) + 1) : IsAt(m, x, j)}
       IN S # {} /\ HoldsFrom(m, Tail(ps), (CHOOSE j \in S : \A h \in S : j <= h) + Len(x))
Holds(m, ps) == HoldsFrom(m, ps, 1)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
Decimal(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

Go(s) == [v |-> "go", s |-> s, want |-> ""]
Stop(s) == [v |-> "stop", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
(* histories of wrappings: ev.nil, ev.k, ev.m describe the error after it *)
Is(ev, e) == ev.e = 0 /\ ev.nil = (IF e.c = "nil" THEN 1 ELSE 0) /\ ev.k = e.k /\ ev.m = e.m
WInit(c) == Made(c.base)
WStep(c, s, ev) ==
  IF ev.o = "New" THEN IF Is(ev, s) THEN Go(s) ELSE Bad(s, s)
  ELSE IF ev.o \in {"E", "T", "P", "PT"} THEN
    LET e == Wrapped(ev.o, s) IN IF Is(ev, e) /\ ev.none = ev.nil THEN Go(e) ELSE Bad(s, e)
  ELSE LET k == AtPlace(s)
           ps == IF ev.o \in {"RF", "WF"} THEN <<Decimal(ev.id), ev.name, ev.st, s.m>> ELSE <<ev.st, s.m>>
       IN IF ev.e = 0 /\ ev.nil = 0 /\ ev.k = k /\ Holds(ev.m, ps) THEN Go([c |-> "kind", k |-> k, m |-> ev.m])
          ELSE Bad(s, <<"kind", k, "message naming", ps>>)

(* an error that crosses a transport of the library (w # "") and a protocol *)
Crossed(w, e) == LET t == IF w = "" THEN e ELSE Wrapped("T", e) IN Wrapped("P", t)
XInit(c) == IF "k" \in DOMAIN c.want THEN [c |-> "want", k |-> c.want.k, m |-> c.want.m] ELSE Crossed(c.wrap, Made(c.base))
XStep(c, s, ev) ==
  IF ev.e = 0 THEN Go(s)
  ELSE IF ev.e # 1 THEN Bad(s, "no panic, no hang")
  ELSE IF s.c # "want" /\ c.sub = "write" /\ c.base.fl = 0 THEN Bad(s, "no error")
  ELSE IF ev.ek # s.k THEN Bad(s, <<"kind", s.k>>)
  ELSE IF ~Holds(ev.m, <<s.m>>) THEN Bad(s, <<"message with", s.m>>)
  ELSE IF "nm" \in DOMAIN c.want /\ Holds(ev.m, <<c.want.nm>>) THEN Bad(s, <<"a message without", c.want.nm>>)
  ELSE Stop([s EXCEPT !.c = "seen"])
XFinal(c, s) == IF c.must = 1 THEN "an error" ELSE ""
=============================================================================
