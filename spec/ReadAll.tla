------------------------------ MODULE ReadAll ------------------------------
(* The exact read over a transport whose reads give scripted results.  An
   entry <<n, k>>: n more bytes, the last of them together with an error of
   kind k (k = -1: no error).  After the last entry: end of file.  Bytes are
   numbered consecutively.                                                 *)
EXTENDS Integers, Sequences, TLC
Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
Stop(s) == [v |-> "stop", s |-> s, want |-> ""]
EOF == 4
NOPROGRESS == 0
AInit(c) == [es |-> c.script, p |-> 0]
RECURSIVE Walk(_, _, _)
(* what k bytes cost: ok, entries left, bytes passed, kind of the error *)
Walk(es, k, got) ==
  IF k = 0 THEN [ok |-> TRUE, es |-> es, got |-> got, ek |-> -1]
  ELSE IF es = <<>> THEN [ok |-> FALSE, es |-> es, got |-> got, ek |-> EOF]
  ELSE LET h == Head(es) IN
       IF h[1] > k THEN [ok |-> TRUE, es |-> <<<<h[1] - k, h[2]>>>> \o Tail(es), got |-> got + k, ek |-> -1]
       ELSE IF h[1] = k THEN [ok |-> TRUE, es |-> Tail(es), got |-> got + k, ek |-> -1]
       ELSE IF h[2] >= 0 THEN [ok |-> FALSE, es |-> Tail(es), got |-> got + h[1], ek |-> h[2]]
       ELSE Walk(Tail(es), k - h[1], got + h[1])
Data(from, n) == [i \in 1..n |-> (from + i - 1) % 256]
AStep(c, s, ev) ==
  LET x == Walk(s.es, ev.k, 0) IN
  IF ev.e >= 2 THEN Bad(s, "no panic, no hang")
  ELSE IF ev.k = 0 THEN IF ev.n = 0 THEN Go(s) ELSE Bad(s, "no bytes")
  ELSE IF x.ok
  THEN IF ev.e = 0 /\ ev.n = ev.k /\ ev.v = Data(s.p, ev.k)
       THEN IF c.exact = 1 /\ ev.pos # s.p + ev.k THEN Bad(s, <<"taken from the transport", s.p + ev.k>>)
            ELSE Go([es |-> x.es, p |-> s.p + ev.k])
       ELSE Bad(s, <<"success with", ev.k, "bytes">>)
  ELSE IF ev.e # 1 THEN Bad(s, <<"an error of kind", x.ek>>)
  ELSE IF ev.ek # x.ek THEN Bad(s, <<"an error of kind", x.ek>>)
  ELSE IF c.exact = 1 /\ ev.pos = s.p + x.got THEN Go([es |-> x.es, p |-> s.p + x.got]) ELSE Stop(s)
=============================================================================
