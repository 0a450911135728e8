----------------------------- MODULE Factories -----------------------------
(* Products of factories.  A transport factory asked for a transport for a
   given one makes a new object with the parameters of the given one if it is
   of the factory's own kind, else with the factory's own; several products
   live side by side, each as if it were alone.  A server is wired to exactly
   the factories it was built with.                                        *)
EXTENDS Integers, Sequences, TLC
(* ---- parameters of a product: c.f of the factory, c.g of a given transport *)
Params(c) == IF c.gv \in {"same", "closed"} THEN c.g ELSE c.f
HasR(m) == IF m \in {"r", "randw", "rw"} THEN 1 ELSE 0
HasW(m) == IF m \in {"w", "randw", "rw"} THEN 1 ELSE 0
(* the product as a directly built object *)
Direct(c) ==
  LET p == Params(c) IN
  CASE c.kind = "iostream" -> LET m == IF c.gv = "closed" THEN "none" ELSE p.mode
                              IN [c EXCEPT !.mode = m, !.hasr = HasR(m), !.hasw = HasW(m)]
    [] c.kind = "sock" -> [c EXCEPT !.tmo = p.tmo]
    [] c.kind = "http" -> [c EXCEPT !.post = p.post]
    [] OTHER -> c

(* ---- servers: the factories of a server by the constructor that built it *)
Ctors == 0..5   \* Factory6, Factory4, Factory2, 6, 4, 2
Exposed(k) == [pf |-> IF k <= 2 THEN "pf" ELSE "pr",
               ti |-> CASE k \in {0, 3} -> "ti" [] k \in {1, 4} -> "tb" [] OTHER -> "id",
               to |-> CASE k \in {0, 3} -> "to" [] k \in {1, 4} -> "tb" [] OTHER -> "id",
               pi |-> CASE k \in {0, 3} -> "pi" [] k \in {1, 4} -> "pb" [] OTHER -> "bin01",
               po |-> CASE k \in {0, 3} -> "po" [] k \in {1, 4} -> "pb" [] OTHER -> "bin01"]
(* what factory f makes of a: its name on a's, unless it hands a on *)
Of(f, a) == IF f = "id" THEN a ELSE <<IF f = "bin01" THEN "def" ELSE f>> \o a
Calls(k, c) == LET x == Exposed(k)
                   call(f, a) == IF f \in {"id", "bin01", "pr"} THEN {} ELSE {<<f, a>>}
               IN call(x.pf, <<c>>) \cup call(x.ti, <<c>>) \cup call(x.to, <<c>>) \cup call(x.pi, Of(x.ti, <<c>>)) \cup call(x.po, Of(x.to, <<c>>))
Reads(k, c) == LET x == Exposed(k) IN Of(x.pi, Of(x.ti, <<c>>))
Writes(k, c) == LET x == Exposed(k) IN Of(x.po, Of(x.to, <<c>>))

Go(s) == [v |-> "go", s |-> s, want |-> ""]
Bad(s, want) == [v |-> "bad", s |-> s, want |-> want]
SStep(c, s, ev) ==
  IF ev.e # 0 THEN Bad(s, "success")
  ELSE IF ev.o = "New" THEN LET x == Exposed(c.ctor)
       IN IF ev.st = 1 /\ \A f \in DOMAIN x : ev[f] = x[f] THEN Go(s) ELSE Bad(s, x)
  ELSE LET n == Len(ev.calls)
           made == {<<ev.calls[i].f, ev.calls[i].a>> : i \in {i \in 1..n : ev.calls[i].f # "proc"}}
           pr == SelectSeq(ev.calls, LAMBDA x : x.f = "proc")
       IN IF made # Calls(c.ctor, ev.c) THEN Bad(s, Calls(c.ctor, ev.c))
          ELSE IF Len(pr) # c.fn \/ \E i \in 1..Len(pr) : pr[i].a # Reads(c.ctor, ev.c) \/ pr[i].b # Writes(c.ctor, ev.c) \/ pr[i].seq # 100 * ev.k + i - 1 \/ pr[i].name # c.name
          THEN Bad(s, <<c.fn, "requests", Reads(c.ctor, ev.c), Writes(c.ctor, ev.c)>>)
          ELSE IF ev.rest # 0 \/ Len(ev.rs) # c.fn \/ \E i \in 1..c.fn : ev.rs[i] # [name |-> c.name, t |-> 2, seq |-> 100 * ev.k + i - 1]
          THEN Bad(s, <<c.fn, "replies">>)
          ELSE Go(s)
=============================================================================
