------------------------------- MODULE JsonMC -------------------------------
(* The design-level properties of the two JSON protocols, over every history
   of write calls the bounded grammar admits: the output obeys JSON's grammar
   (WellFormed), is read back as written (RoundTrip), Skip lands behind it
   (SkipLands), and no proper prefix of it decodes (NoPrefixDecodes).        *)
EXTENDS Grammar, Json, IOUtils
J == INSTANCE JsonProtocol
VARIABLE out, ctx
vars == <<goal, hist, out, ctx>>
Protos == {"json", "sjson"}
Full(p) == p = "json"

Init == GInit /\ out = [p \in Protos |-> <<>>] /\ ctx = [p \in Protos |-> J!JsonWInit]
Next == /\ GNext
        /\ LET op == hist'[Len(hist')]
               d == [p \in Protos |-> J!JsonW(Full(p), ctx[p], op)]
           IN /\ out' = [p \in Protos |-> out[p] \o [i \in 1..Len(d[p].out) |-> J!AsTok(d[p].out[i])]]
              /\ ctx' = [p \in Protos |-> d[p].st]
Spec == Init /\ [][Next]_vars

EndTok == J!AsTok(J!P("end"))
Toks(p, n) == Append(SubSeq(out[p], 1, n), EndTok)

(* JSON's own grammar, as a recogniser independent of the protocol *)
RECURSIVE Value(_, _), Elems(_, _), Members(_, _)
At(ts, i) == IF i <= Len(ts) THEN ts[i].k ELSE "end"
Value(ts, i) ==   \* index after the value at i, 0 if there is none
  IF i = 0 THEN 0
  ELSE CASE At(ts, i) \in {"str", "num", "true", "false", "null"} -> i + 1
    [] At(ts, i) = "[" -> IF At(ts, i+1) = "]" THEN i + 2 ELSE Elems(ts, i + 1)
    [] At(ts, i) = "{" -> IF At(ts, i+1) = "}" THEN i + 2 ELSE Members(ts, i + 1)
    [] OTHER -> 0
Elems(ts, i) == LET j == Value(ts, i)
                IN IF j = 0 THEN 0 ELSE IF At(ts, j) = "]" THEN j + 1 ELSE IF At(ts, j) = "," THEN Elems(ts, j + 1) ELSE 0
Members(ts, i) == IF At(ts, i) # "str" \/ At(ts, i+1) # ":" THEN 0
                  ELSE LET j == Value(ts, i + 2)
                       IN IF j = 0 THEN 0 ELSE IF At(ts, j) = "}" THEN j + 1 ELSE IF At(ts, j) = "," THEN Members(ts, j + 1) ELSE 0
WellFormed == Done => \A p \in Protos : Value(out[p], 1) = Len(out[p]) + 1

ROp(op) == CASE op.o = "Stop" -> [o |-> "RFldB"] [] OTHER -> [o |-> "R" \o op.o]
Same(p, op, res) ==
  CASE op.o = "Stop" -> res.t = 0
    [] op.o = "FldB" -> IF Full(p) THEN res.t = op.t /\ res.id = op.id ELSE res.name = op.name /\ res.id < 0
    [] op.o = "MapB" -> res.n = op.n /\ res.kt = op.kt /\ res.t = op.t
    [] op.o \in {"LstB", "SetB"} -> res.n = op.n /\ res.t = op.t
    [] op.o \in {"Bool", "Byte"} -> res.n = op.n
    [] op.o \in {"I16", "I32", "I64", "Str"} -> res.v = op.v
    [] op.o = "Dbl" -> J!SameDouble(res.d, op.v)
    [] OTHER -> TRUE
RECURSIVE ReadBack(_, _, _, _)
ReadBack(p, st, ts, i) ==
  IF i > Len(hist) THEN st.p = Len(ts) /\ st.ctx = <<"T">>
  ELSE LET d == J!JsonR(Full(p), st, ts, ROp(hist[i]))
       IN d.r = "ok" /\ Same(p, hist[i], d.res) /\ ReadBack(p, d.st, ts, i + 1)
RECURSIVE Decodes(_, _, _, _)
Decodes(p, st, ts, i) ==   \* every read call succeeds
  i > Len(hist) \/ LET d == J!JsonR(Full(p), st, ts, ROp(hist[i])) IN d.r = "ok" /\ Decodes(p, d.st, ts, i + 1)
TopType == CASE hist[1].o = "StrB" -> T_STRUCT [] hist[1].o = "LstB" -> T_LIST [] hist[1].o = "SetB" -> T_SET
             [] hist[1].o = "MapB" -> T_MAP [] OTHER -> CHOOSE t \in Scalars : OpOf[t] = hist[1].o
RoundTrip == Done => \A p \in Protos : ReadBack(p, J!JsonRInit, Toks(p, Len(out[p])), 1)
SkipLands == Done => LET s == J!JsonR(TRUE, J!JsonRInit, Toks("json", Len(out["json"])), [o |-> "RSkip", t |-> TopType, d |-> 64])
                     IN s.r = "ok" /\ s.st.p = Len(out["json"]) + 1 /\ s.st.ctx = <<"T">>
NoPrefixDecodes == Done => \A p \in Protos : \A k \in 0..(Len(out[p]) - 1) : ~Decodes(p, J!JsonRInit, Toks(p, k), 1)
EmitScripts == Done /\ IOEnv.EMIT = "1" => PrintT("SCRIPT " \o ToJson([ops |-> hist, t |-> TopType]))
=============================================================================
