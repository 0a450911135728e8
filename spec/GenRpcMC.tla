------------------------------ MODULE GenRpcMC ------------------------------
(* One client and one processor on a connection: every short history of calls
   of a small service (GENENV), the processor any number of oneway calls
   behind.  Deviation: see GenRpc; each of them must violate an invariant.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
CONSTANTS Depth, Deviation
K == INSTANCE GenRpc
S == INSTANCE GenStruct WITH Deviation <- "none"
Data == ndJsonDeserialize(IOEnv.GENENV)[1]
Env == Data.env
Fns == Data.fns
Methods == DOMAIN Fns
V(t, v, a) == S!V(t, v, a)
RECURSIVE Dom(_), Product(_, _, _)
Product(fs, n, acc) == IF n > Len(fs) THEN acc ELSE LET d == Dom(fs[n].t) IN Product(fs, n + 1, {Append(s, e) : s \in acc, e \in d})
Objs(n) == {V("STRUCT", n, s) : s \in Product(Env[n], 1, {<<>>})}
Dom(T) == CASE T.k = "I32" -> {V("I32", "1", <<>>), V("I32", "7", <<>>)}
            [] T.k = "ENUM" -> {V("ENUM", "UNSET", <<>>), V("ENUM", "10", <<>>)}
            [] T.k = "STRUCT" -> {S!Nil} \cup Objs(T.n)
Calls == UNION {[m : {m}, a : Objs(K!Args(m)), x : Objs(K!Result(m)), err : BOOLEAN] : m \in Methods}
VARIABLES calls, net, rep, handled, waiting, got
vars == <<calls, net, rep, handled, waiting, got>>
Init == calls = <<>> /\ net = <<>> /\ rep = <<>> /\ handled = <<>> /\ waiting = FALSE /\ got = <<>>
\* a handler's answer does not matter when it fails, nor to a oneway call
Plain(c) == (c.err \/ Fns[c.m].oneway) => c.x = S!NewObj(Env, K!Result(c.m))
Send(c) == /\ ~waiting /\ Len(calls) < Depth
           /\ calls' = Append(calls, c) /\ net' = Append(net, [m |-> c.m, seq |-> Len(calls) + 1, w |-> S!WireOf(Env, c.a)])
           /\ waiting' = ~Fns[c.m].oneway /\ UNCHANGED <<rep, handled, got>>
Answer(m, seq, c) == [m |-> m, seq |-> seq, ty |-> IF c.err THEN K!EXCEPTION ELSE K!REPLY, w |-> IF c.err THEN S!Nil ELSE K!ResultWire(Env, c.x)]
Process == /\ net # <<>>
           /\ LET q == Head(net)
                  c == calls[q.seq]
              IN /\ handled' = Append(handled, [m |-> q.m, seq |-> q.seq, a |-> S!ReadInto(Env, S!NewObj(Env, K!Args(q.m)), q.w)])
                 /\ rep' = IF Fns[q.m].oneway /\ Deviation # "oneway" THEN rep ELSE Append(rep, Answer(q.m, q.seq, c))
           /\ net' = Tail(net) /\ UNCHANGED <<calls, waiting, got>>
Recv == /\ waiting /\ rep # <<>>
        /\ LET r == Head(rep)
               m == calls[Len(calls)].m
           IN got' = Append(got, [call |-> Len(calls), seq |-> r.seq, ty |-> r.ty,
                                  y |-> IF r.ty = K!REPLY /\ r.m = m THEN S!ReadInto(Env, S!NewObj(Env, K!Result(m)), r.w) ELSE S!Nil])
        /\ rep' = Tail(rep) /\ waiting' = FALSE /\ UNCHANGED <<calls, net, handled>>
Next == (\E c \in Calls : Plain(c) /\ Send(c)) \/ Process \/ Recv
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Process) /\ WF_vars(Recv)

\* a client gets the reply to its call
InSync == \A n \in 1..Len(got) : got[n].seq = got[n].call
\* every call is handled once, in order, with what was sent; what was not sent has its default
Once == Len(handled) + Len(net) = Len(calls)
        /\ \A n \in 1..Len(handled) :
             LET c == calls[n]
                 h == handled[n]
             IN /\ h.m = c.m /\ h.seq = n
                /\ \A k \in 1..Len(c.a.a) : S!Eq(h.a.a[k], IF S!IsSet(Env[c.a.v][k], c.a.a[k]) THEN c.a.a[k] ELSE S!Initial(Env[c.a.v][k]))
\* the caller gets the value, or the one exception that goes before it
Is(n, k) == S!IsSet(Env[calls[n].x.v][k], calls[n].x.a[k])
Own == \A j \in 1..Len(got) :
  LET n == got[j].call
      c == calls[n]
      fs == Env[c.x.v]
      x == c.x
      y == got[j].y
      exs == {k \in 1..Len(fs) : fs[k].i # 0}
      there(k) == ~S!IsNil(y.a[k])
  IN IF c.err THEN got[j].ty = K!EXCEPTION
     ELSE /\ got[j].ty = K!REPLY
          /\ \A k \in exs : there(k) <=> (Is(n, k) /\ \A i \in exs : Is(n, i) => fs[i].i <= fs[k].i)
          /\ \A k \in exs : there(k) => S!Eq(y.a[k], x.a[k])
          /\ \A k \in (1..Len(fs)) \ exs :
               S!Eq(y.a[k], IF Is(n, k) /\ \A i \in exs : ~Is(n, i) THEN x.a[k] ELSE S!Initial(fs[k]))
\* nothing is left behind
Quiet == (net = <<>> /\ ~waiting) => (rep = <<>> /\ Len(handled) = Len(calls) /\ Len(got) = Cardinality({n \in 1..Len(calls) : ~Fns[calls[n].m].oneway}))
Comes == waiting ~> ~waiting
Emit == (Len(calls) = Depth /\ net = <<>> /\ ~waiting /\ IOEnv.EMIT = "1") => PrintT("SCRIPT " \o ToJson(calls))
=============================================================================
