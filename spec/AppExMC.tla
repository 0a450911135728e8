------------------------------ MODULE AppExMC ------------------------------
(* Application exceptions over every list of fields a peer may send, within
   bounds: reading gives the last message and the last kind and consumes
   exactly the struct, and no proper prefix reads.                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS MaxFields, Labels, ByIdOnly
B == INSTANCE BinaryProtocol
C == INSTANCE CompactProtocol
J == INSTANCE JsonProtocol
RD(p, st, op) == CASE p.p = "bin" -> B!BinR([sr |-> 0], st, p.b, op)
                   [] p.p = "com" -> C!ComR([sr |-> 0], st, p.b, op)
                   [] OTHER -> J!JsonR(TRUE, st, p.b, op)
A == INSTANCE AppException WITH R <- RD
Fld(id, t, body) == <<[o |-> "FldB", name |-> <<102>>, t |-> t, id |-> id]>> \o body \o <<[o |-> "FldE"]>>
I32v(v) == <<[o |-> "I32", v |-> v]>>
M1 == <<97, 98>>
K1 == <<0, 0, 0, 6>>
K2 == <<255, 255, 255, 254>>
Sub == <<[o |-> "StrB", name |-> <<115>>]>> \o Fld(1, 11, <<[o |-> "Str", v |-> <<120>>]>>) \o Fld(2, 8, I32v(<<0, 0, 0, 9>>)) \o <<[o |-> "Stop"], [o |-> "StrE"]>>
OpsOf(l) ==
  CASE l = "m1" -> Fld(1, 11, <<[o |-> "Str", v |-> M1]>>)
    [] l = "m0" -> Fld(1, 11, <<[o |-> "Str", v |-> <<>>]>>)
    [] l = "k1" -> Fld(2, 8, I32v(K1))
    [] l = "k2" -> Fld(2, 8, I32v(K2))
    [] l = "xm" -> Fld(1, 8, I32v(K1))
    [] l = "xb" -> Fld(1, 2, <<[o |-> "Bool", n |-> 0]>>)
    [] l = "xk" -> Fld(2, 11, <<[o |-> "Str", v |-> M1]>>)
    [] l = "xs" -> Fld(2, 12, Sub)
    [] l = "e3" -> Fld(3, 11, <<[o |-> "Str", v |-> <<120, 121>>]>>)
    [] l = "es" -> Fld(-1, 12, Sub)
    [] l = "el" -> Fld(100, 15, <<[o |-> "LstB", t |-> 2, n |-> 2], [o |-> "Bool", n |-> 1], [o |-> "Bool", n |-> 0], [o |-> "LstE"]>>)
    [] l = "em" -> Fld(0, 13, <<[o |-> "MapB", kt |-> 8, t |-> 11, n |-> 1], [o |-> "I32", v |-> K1], [o |-> "Str", v |-> M1], [o |-> "MapE"]>>)
    [] l = "eb" -> Fld(4, 2, <<[o |-> "Bool", n |-> 0]>>)
    [] l = "e0" -> Fld(5, 13, <<[o |-> "MapB", kt |-> 8, t |-> 11, n |-> 0], [o |-> "MapE"]>>)
RECURSIVE WAll(_, _, _, _)
Wr(p, w, op) == CASE p = "bin" -> B!BinW([sw |-> 1], w, op) [] p = "com" -> C!ComW([sw |-> 1], w, op)
                  [] OTHER -> LET d == J!JsonW(TRUE, w, op) IN [d EXCEPT !.out = [i \in 1..Len(d.out) |-> J!AsTok(d.out[i])]]
WAll(p, w, ops, out) == IF ops = <<>> THEN out ELSE LET d == Wr(p, w, Head(ops)) IN WAll(p, d.st, Tail(ops), out \o d.out)
WInit(p) == CASE p = "bin" -> B!BinWInit [] p = "com" -> C!ComWInit [] OTHER -> J!JsonWInit
RInit(p) == CASE p = "bin" -> B!BinRInit [] p = "com" -> C!ComRInit [] OTHER -> J!JsonRInit
RECURSIVE Cat(_)
Cat(ls) == IF ls = <<>> THEN <<>> ELSE OpsOf(Head(ls)) \o Cat(Tail(ls))
Wire(p, ls) == WAll(p, WInit(p), <<[o |-> "StrB", name |-> <<120>>]>> \o Cat(ls) \o <<[o |-> "Stop"], [o |-> "StrE"]>>, <<>>)
In(p, b) == [p |-> p, b |-> IF p = "json" THEN Append(b, J!AsTok(J!P("end"))) ELSE b]

VARIABLES fields
Init == fields = <<>>
Next == Len(fields) < MaxFields /\ \E l \in Labels : fields' = Append(fields, l)
Spec == Init /\ [][Next]_fields

LastIn(S) == LET is == {i \in 1..Len(fields) : fields[i] \in S} IN IF is = {} THEN "" ELSE fields[CHOOSE i \in is : \A j \in is : j <= i]
(* what a careless reader would look at, to show that the properties can fail *)
MsgOf == LET l == LastIn(IF ByIdOnly THEN {"m1", "m0", "xm"} ELSE {"m1", "m0"}) IN IF l = "m1" THEN M1 ELSE <<>>
KindOf == LET l == LastIn({"k1", "k2"}) IN CASE l = "k1" -> K1 [] l = "k2" -> K2 [] OTHER -> <<0, 0, 0, 0>>
Protos == {"bin", "com", "json"}
ReadsBack == \A p \in Protos : LET w == Wire(p, fields)  x == A!Read(In(p, w), RInit(p))
                               IN x.r = "ok" /\ x.res = [k |-> KindOf, v |-> MsgOf] /\ x.st.p = Len(w) + 1
NoPrefixReads == \A p \in Protos : LET w == Wire(p, fields) IN \A n \in 0..(Len(w) - 1) : A!Read(In(p, SubSeq(w, 1, n)), RInit(p)).r = "err"
(* every form the specification allows a writer is read as the exception itself *)
ASSUME FormsAgree == \A v \in {<<>>, M1}, k \in {A!Zero, K2} : \A f \in A!Forms([k |-> k, v |-> v]) : \A p \in Protos :
                LET w == WAll(p, WInit(p), f, <<>>)  x == A!Read(In(p, w), RInit(p))
                IN x.r = "ok" /\ x.res = [k |-> k, v |-> v] /\ x.st.p = Len(w) + 1
Emit == IOEnv.EMIT = "1" => PrintT("SCRIPT " \o ToJson([fields |-> fields]))
=============================================================================
