------------------------------ MODULE CodecMC ------------------------------
(* The design-level properties of the two binary encodings, over every
   history of write calls the bounded grammar admits: what is written is read
   back (RoundTrip), Skip lands behind it (SkipLands), and no proper prefix of
   an encoding decodes (NoPrefixDecodes).  With EMIT set, every completed
   history is printed, to be replayed on the real code.                      *)
EXTENDS Grammar, Json, IOUtils
B == INSTANCE BinaryProtocol
C == INSTANCE CompactProtocol
VARIABLE out, wst     \* per protocol: bytes written, writer state
vars == <<goal, hist, out, wst>>
Cfg == [sw |-> 1, sr |-> 0]
Wr(p, st, op) == IF p = "bin" THEN B!BinW(Cfg, st, op) ELSE C!ComW(Cfg, st, op)
Rd(p, st, b, op) == IF p = "bin" THEN B!BinR(Cfg, st, b, op) ELSE C!ComR(Cfg, st, b, op)
Protos == {"bin", "com"}

Init == /\ GInit
        /\ out = [p \in Protos |-> <<>>]
        /\ wst = [bin |-> B!BinWInit, com |-> C!ComWInit]
Next == /\ GNext
        /\ LET op == hist'[Len(hist')]
               d == [p \in Protos |-> Wr(p, wst[p], op)]
           IN out' = [p \in Protos |-> out[p] \o d[p].out] /\ wst' = [p \in Protos |-> d[p].st]
Spec == Init /\ [][Next]_vars

(* the read call that answers a write call, and the result it must give *)
ROp(op) == CASE op.o = "Stop" -> [o |-> "RFldB"] [] OTHER -> [o |-> "R" \o op.o]
Same(op, res) ==
  CASE op.o = "Stop" -> res.t = 0
    [] op.o = "FldB" -> res.t = op.t /\ res.id = op.id
    [] op.o = "MapB" -> res.n = op.n /\ (op.n = 0 \/ (res.kt = op.kt /\ res.t = op.t))
    [] op.o \in {"LstB", "SetB"} -> res.n = op.n /\ res.t = op.t
    [] op.o \in {"Bool", "Byte"} -> res.n = op.n
    [] op.o \in {"I16", "I32", "I64", "Dbl", "Str"} -> res.v = op.v
    [] OTHER -> TRUE
RECURSIVE ReadBack(_, _, _, _)
ReadBack(p, st, b, i) ==
  IF i > Len(hist) THEN st.p = Len(b) + 1
  ELSE LET d == Rd(p, st, b, ROp(hist[i]))
       IN d.r = "ok" /\ Same(hist[i], d.res) /\ ReadBack(p, d.st, b, i + 1)
RInit(p) == IF p = "bin" THEN B!BinRInit ELSE C!ComRInit
TopType == CASE hist[1].o = "StrB" -> T_STRUCT [] hist[1].o = "LstB" -> T_LIST [] hist[1].o = "SetB" -> T_SET
             [] hist[1].o = "MapB" -> T_MAP [] OTHER -> CHOOSE t \in Scalars : OpOf[t] = hist[1].o
SkipOf(p, b) == IF p = "bin" THEN B!BinSkip(b, 1, TopType, 64) ELSE C!ComSkip(b, 1, TopType, 64, FALSE)

RoundTrip == Done => \A p \in Protos : ReadBack(p, RInit(p), out[p], 1)
SkipLands == Done => \A p \in Protos : LET s == SkipOf(p, out[p]) IN s.r = "ok" /\ s.p = Len(out[p]) + 1
NoPrefixDecodes == Done => \A p \in Protos : \A k \in 0..(Len(out[p]) - 1) : SkipOf(p, SubSeq(out[p], 1, k)).r = "err"
Emit == Done /\ IOEnv.EMIT = "1" => PrintT("SCRIPT " \o ToJson([ops |-> hist, t |-> TopType, bin |-> out["bin"], com |-> out["com"]]))
=============================================================================
