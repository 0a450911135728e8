------------------------------ MODULE ErrorsMC ------------------------------
(* Every history of wrappings of every error, up to a depth, beside the kind
   the first wrapping as a transport or protocol exception gave it.
   Fault: "" | "again" (wrapping gives a kind anew) | "eof" (the end of a
   stream is an unknown error): must violate KindKept, EndKnown.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Depth, Fault
E == INSTANCE Errors
VARIABLES base, err, first, hist
vars == <<base, err, first, hist>>
Bases == {[c |-> c, k |-> -1, m |-> <<>>] : c \in {"nil", "eof", "b64"}} \cup {[c |-> c, k |-> -1, m |-> <<98>>] : c \in {"go", "E", "A"}}
         \cup {[c |-> c, k |-> k, m |-> <<98>>] : c \in {"T", "P", "own"}, k \in {0, 1, 4}} \cup {[c |-> "Tk", k |-> 3, m |-> <<>>], [c |-> "Pm", k |-> 0, m |-> <<98>>]}
W(o, e) == CASE Fault = "again" /\ o = "T" /\ e.c = "kind" -> [e EXCEPT !.k = 0]
             [] Fault = "eof" /\ o = "T" /\ e.c = "eof" -> [e EXCEPT !.c = "kind", !.k = 0]
             [] OTHER -> E!Wrapped(o, e)
Init == /\ base \in Bases /\ err = E!Made(base) /\ first = err.k /\ hist = <<>>
Do(o, e) == /\ err' = e /\ hist' = Append(hist, o) /\ UNCHANGED base
            /\ first' = IF first = -1 THEN e.k ELSE first
Next == /\ Len(hist) < Depth
        /\ \/ \E o \in {"E", "T", "P"} : Do(o, W(o, err))
           \/ err.c \in {"nil", "kind"} /\ Do("PT", W("PT", err))
           \/ err.c = "kind" /\ \E o \in {"RF", "WF", "RS", "WS"} : Do(o, [c |-> "kind", k |-> E!AtPlace(err), m |-> <<104>> \o err.m])
Spec == Init /\ [][Next]_vars
NoneIsNone == (err.c = "nil") = (base.c = "nil")
Placed == \E i \in 1..Len(hist) : hist[i] \in {"RF", "WF", "RS", "WS"}
KindKept == first # -1 => err.k = IF Placed /\ first = 0 THEN 1 ELSE first
MessageKept == base.c # "nil" => E!Holds(err.m, <<E!Made(base).m>>)
Typed == (\E i \in 1..Len(hist) : hist[i] # "E") /\ base.c # "nil" => err.c = "kind" /\ err.k >= 0
EndKnown == base.c = "eof" /\ Len(hist) > 0 /\ hist[1] = "T" => err.k = 4
Emit == Len(hist) = Depth /\ IOEnv.EMIT = "1" => PrintT("SCRIPT " \o ToJson([base |-> base, ops |-> hist]))
=============================================================================
