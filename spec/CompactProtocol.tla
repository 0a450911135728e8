-------------------------- MODULE CompactProtocol --------------------------
(* The Thrift compact protocol as a pair of state machines over one byte
   stream; same conventions as BinaryProtocol.  Both ends keep the id of the
   previous field of the current struct (last) and of the enclosing structs
   (stack); the writer may hold back the header of a boolean field until its
   value is known (pend), the reader a boolean value read with the header
   (bool).                                                                 *)
EXTENDS Bytes, ThriftTypes, FiniteSets, TLC

Ok(st, res)  == [r |-> "ok",    st |-> st, res |-> res, ek |-> -1]
OkErr(st, res) == [r |-> "okerr", st |-> st, res |-> res, ek |-> -1]
Err(st)      == [r |-> "err",   st |-> st, res |-> <<>>, ek |-> -1]
ErrK(st, k)  == [r |-> "err",   st |-> st, res |-> <<>>, ek |-> k]
AnyR(st)     == [r |-> "any",   st |-> st, res |-> <<>>, ek |-> -1]
BAD_VERSION == 4
PROTOCOL_ID == 130
VERSION == 1

CType(t) == CASE t = T_BOOL -> 1  [] t = T_BYTE -> 3  [] t = T_I16 -> 4  [] t = T_I32 -> 5
              [] t = T_I64 -> 6  [] t = T_DOUBLE -> 7  [] t \in {T_STRING, T_BINARY} -> 8
              [] t = T_LIST -> 9  [] t = T_SET -> 10  [] t = T_MAP -> 11  [] t = T_STRUCT -> 12
CTrue == 1
CFalse == 2
(* 0 stands for "no such code" *)
TypeOfC(c) == CASE c \in {1, 2} -> T_BOOL [] c = 3 -> T_BYTE [] c = 4 -> T_I16 [] c = 5 -> T_I32
                [] c = 6 -> T_I64 [] c = 7 -> T_DOUBLE [] c = 8 -> T_STRING [] c = 9 -> T_LIST
                [] c = 10 -> T_SET [] c = 11 -> T_MAP [] c = 12 -> T_STRUCT [] OTHER -> 0

(* ------------------------------- writer ------------------------------- *)
SizeVar(n) == Varint(Bits(IntOfNat(n, 4)))
ZZ(bs) == Varint(ZigZag(Bits(bs)))
(* a 16-bit value travels as a zigzag 32-bit one; same varint *)
FieldHeader(last, id, ct) ==
  IF id > last /\ id - last <= 15 THEN <<16 * (id - last) + ct>>
  ELSE <<ct>> \o ZZ(I16Of(id))
CollHeader(t, n) == IF n <= 14 THEN <<16 * n + CType(t)>> ELSE <<240 + CType(t)>> \o SizeVar(n)

ComWInit == [last |-> 0, stack |-> <<>>, pend |-> <<>>]

ComW(cfg, st, op) ==
  LET emit(bs) == [out |-> bs, st |-> st] IN
  CASE op.o = "MsgB" -> emit(<<PROTOCOL_ID, VERSION + 32 * op.t>> \o Varint(Bits(op.v))
                             \o SizeVar(Len(op.name)) \o op.name)
    [] op.o = "StrB" -> [out |-> <<>>, st |-> [st EXCEPT !.stack = Append(@, st.last), !.last = 0]]
    [] op.o = "StrE" -> [out |-> <<>>,
         st |-> [st EXCEPT !.last = st.stack[Len(st.stack)],
                           !.stack = SubSeq(@, 1, Len(@) - 1)]]
    [] op.o = "FldB" ->
         IF op.t = T_BOOL THEN [out |-> <<>>, st |-> [st EXCEPT !.pend = <<op.id>>]]
         ELSE [out |-> FieldHeader(st.last, op.id, CType(op.t)),
               st |-> [st EXCEPT !.last = op.id]]
    [] op.o = "Bool" ->
         LET c == IF op.n = 1 THEN CTrue ELSE CFalse
         IN IF st.pend = <<>> THEN emit(<<c>>)
            ELSE [out |-> FieldHeader(st.last, st.pend[1], c),
                  st |-> [st EXCEPT !.last = st.pend[1], !.pend = <<>>]]
    [] op.o = "Stop" -> emit(<<0>>)
    [] op.o = "MapB" -> IF op.n = 0 THEN emit(<<0>>)
                        ELSE emit(SizeVar(op.n) \o <<16 * CType(op.kt) + CType(op.t)>>)
    [] op.o \in {"LstB", "SetB"} -> emit(CollHeader(op.t, op.n))
    [] op.o = "Byte" -> emit(<<op.n>>)
    [] op.o \in {"I16", "I32", "I64"} -> emit(ZZ(op.v))
    [] op.o = "Dbl" -> emit(Reverse(op.v))
    [] op.o \in {"Str", "Bin"} -> emit(SizeVar(Len(op.v)) \o op.v)
    [] OTHER -> emit(<<>>)

(* ------------------------------- reader ------------------------------- *)
ComRInit == [p |-> 1, last |-> 0, stack |-> <<>>, bool |-> <<>>]

(* a size or length: [r, p, n]; "err" also when it is negative as an i32 *)
ComSize(b, p) ==
  LET d == DecVar(b, p, 32)
      bs == BytesOf(d.bits, 4)
  IN IF d.r = "err" THEN [r |-> "err", p |-> p, n |-> 0]
     ELSE IF d.r = "any" THEN [r |-> "any", p |-> p, n |-> 0]
     ELSE IF IsNeg(bs) THEN [r |-> "err", p |-> p, n |-> 0]
     ELSE [r |-> "ok", p |-> p + d.k, n |-> NatOf(bs)]

ComStr(b, p) ==
  LET s == ComSize(b, p)
  IN IF s.r # "ok" THEN [r |-> s.r, p |-> p, v |-> <<>>]
     ELSE IF s.n > Len(b) \/ ~Avail(b, s.p, s.n) THEN [r |-> "err", p |-> p, v |-> <<>>]
     ELSE [r |-> "ok", p |-> s.p + s.n, v |-> Take(b, s.p, s.n)]

(* collection header: [r, p, t, n] *)
ComColl(b, p) ==
  LET no(r) == [r |-> r, p |-> p, t |-> 0, n |-> 0] IN
  IF ~Avail(b, p, 1) THEN no("err")
  ELSE LET c == b[p] % 16
           s == IF b[p] \div 16 = 15 THEN ComSize(b, p + 1)
                ELSE [r |-> "ok", p |-> p + 1, n |-> b[p] \div 16]
       IN IF s.r # "ok" THEN no(s.r)
          ELSE IF c = 0 \/ c > 12 THEN (IF c = 0 THEN no("any") ELSE no("err"))
          ELSE [r |-> "ok", p |-> s.p, t |-> TypeOfC(c), n |-> s.n]

(* map header: [r, p, kt, t, n] *)
ComMap(b, p) ==
  LET no(r) == [r |-> r, p |-> p, kt |-> 0, t |-> 0, n |-> 0]
      s == ComSize(b, p)
  IN IF s.r # "ok" THEN no(s.r)
     ELSE IF s.n = 0 THEN [r |-> "ok", p |-> s.p, kt |-> 0, t |-> 0, n |-> 0]
     ELSE IF ~Avail(b, s.p, 1) THEN no("err")
     ELSE LET k == b[s.p] \div 16  v == b[s.p] % 16
          IN IF k > 12 \/ v > 12 THEN no("err")
             ELSE IF k = 0 \/ v = 0 THEN no("any")
             ELSE [r |-> "ok", p |-> s.p + 1, kt |-> TypeOfC(k), t |-> TypeOfC(v), n |-> s.n]

(* field header: [r, p, t, id, c]; t = 0 is the stop *)
ComField(b, p, last) ==
  LET no(r) == [r |-> r, p |-> p, t |-> 0, id |-> 0, c |-> 0] IN
  IF ~Avail(b, p, 1) THEN no("err")
  ELSE LET c == b[p] % 16  m == b[p] \div 16 IN
       IF c = 0 THEN (IF m = 0 THEN [r |-> "ok", p |-> p + 1, t |-> 0, id |-> 0, c |-> 0]
                      ELSE no("any"))
       ELSE IF m > 0 THEN
         IF c > 12 THEN no("err")
         ELSE IF last + m > 32767 THEN no("any")
         ELSE [r |-> "ok", p |-> p + 1, t |-> TypeOfC(c), id |-> last + m, c |-> c]
       ELSE LET d == DecVar(b, p + 1, 32)
                i == BytesOf(UnZigZag(d.bits), 4)
            IN IF d.r = "err" \/ c > 12 THEN no("err")
               ELSE IF d.r = "any" \/ SignExt(LowBytes(i, 2), 4) # i THEN no("any")
               ELSE [r |-> "ok", p |-> p + 1 + d.k, t |-> TypeOfC(c),
                     id |-> IntOf16(LowBytes(i, 2)), c |-> c]

FixedSize == (T_BOOL :> 1) @@ (T_BYTE :> 1) @@ (T_DOUBLE :> 8)
RECURSIVE ComSkip(_, _, _, _, _), ComSkipN(_, _, _, _, _), ComSkipFields(_, _, _, _)
(* held: TRUE if a boolean value was already read with the field header *)
ComSkip(b, p, t, d, held) ==
  LET fixed(n) == IF Avail(b, p, n) THEN [r |-> "ok", p |-> p + n] ELSE [r |-> "err", p |-> p]
      bad == [r |-> "err", p |-> p]
      var(nbits) == LET v == DecVar(b, p, nbits) IN [r |-> v.r, p |-> p + v.k]
  IN IF d <= 0 THEN bad
  ELSE CASE t = T_BOOL -> IF held THEN [r |-> "ok", p |-> p] ELSE fixed(1)
    [] t = T_BYTE -> fixed(1)
    [] t \in {T_I16, T_I32} -> var(32)
    [] t = T_I64 -> var(64)
    [] t = T_DOUBLE -> fixed(8)
    [] t = T_STRING -> LET s == ComStr(b, p) IN [r |-> s.r, p |-> s.p]
    [] t = T_STRUCT -> ComSkipFields(b, p, d, 0)
    [] t = T_MAP -> LET h == ComMap(b, p) IN
         IF h.r # "ok" THEN [r |-> h.r, p |-> p]
         ELSE IF h.n > Len(b) THEN bad
         ELSE ComSkipN(b, h.p, <<h.kt, h.t>>, h.n, d - 1)
    [] t \in {T_SET, T_LIST} -> LET h == ComColl(b, p) IN
         IF h.r # "ok" THEN [r |-> h.r, p |-> p]
         ELSE IF h.n > Len(b) THEN bad
         ELSE ComSkipN(b, h.p, <<h.t>>, h.n, d - 1)
    [] t \in {0, 1, 16, 17, 18, 127} -> [r |-> "any", p |-> p]
    [] OTHER -> bad
ComSkipN(b, p, ts, n, d) ==
  IF n = 0 THEN [r |-> "ok", p |-> p]
  ELSE IF n > 64 /\ \A i \in 1..Len(ts) : ts[i] \in DOMAIN FixedSize
       THEN (* the same, without walking through them *)
            LET len == n * (IF Len(ts) = 1 THEN FixedSize[ts[1]] ELSE FixedSize[ts[1]] + FixedSize[ts[2]])
            IN IF d <= 0 \/ ~Avail(b, p, len) THEN [r |-> "err", p |-> p] ELSE [r |-> "ok", p |-> p + len]
  ELSE LET a == ComSkip(b, p, ts[1], d, FALSE)
       IN IF a.r # "ok" THEN a
          ELSE IF Len(ts) = 1 THEN ComSkipN(b, a.p, ts, n - 1, d)
          ELSE LET c == ComSkip(b, a.p, ts[2], d, FALSE)
               IN IF c.r # "ok" THEN c ELSE ComSkipN(b, c.p, ts, n - 1, d)
ComSkipFields(b, p, d, last) ==
  LET f == ComField(b, p, last)
  IN IF f.r # "ok" THEN [r |-> f.r, p |-> p]
     ELSE IF f.t = 0 THEN [r |-> "ok", p |-> f.p]
     ELSE LET a == ComSkip(b, f.p, f.t, d - 1, TRUE)
          IN IF a.r # "ok" THEN a ELSE ComSkipFields(b, a.p, d, f.id)

ComRMsg(st, b) ==
  LET p == st.p IN
  IF ~Avail(b, p, 1) THEN Err(st)
  ELSE IF b[p] # PROTOCOL_ID THEN ErrK(st, BAD_VERSION)
  ELSE IF ~Avail(b, p, 2) THEN Err(st)
  ELSE IF b[p+1] % 32 # VERSION THEN ErrK(st, BAD_VERSION)
  ELSE LET d == DecVar(b, p + 2, 32) IN
       IF d.r = "err" THEN Err(st)
       ELSE IF d.r = "any" THEN AnyR(st)
       ELSE LET s == ComStr(b, p + 2 + d.k) IN
            IF s.r = "err" THEN Err(st)
            ELSE IF s.r = "any" THEN AnyR(st)
            ELSE LET res == [name |-> s.v, t |-> b[p+1] \div 32, v |-> BytesOf(d.bits, 4)]
                     st2 == [st EXCEPT !.p = s.p]
                 IN IF b[p+1] \div 32 \in 1..4 THEN Ok(st2, res) ELSE OkErr(st2, res)

ComR(cfg, st, b, op) ==
  LET p == st.p
      To(q) == [st EXCEPT !.p = q]
      lift(x, res) == CASE x.r = "ok" -> Ok(To(x.p), res)
                        [] x.r = "err" -> Err(st)
                        [] OTHER -> AnyR(st)
      zz(n) == LET d == DecVar(b, p, 32)
                   i == BytesOf(UnZigZag(d.bits), 4)
               IN IF d.r = "err" THEN Err(st)
                  ELSE IF d.r = "any" \/ SignExt(LowBytes(i, n), 4) # i THEN AnyR(st)
                  ELSE Ok(To(p + d.k), [v |-> LowBytes(i, n)])
  IN CASE op.o = "RMsgB" -> ComRMsg(st, b)
    [] op.o \in {"RMsgE", "RFldE", "RMapE", "RLstE", "RSetE"} -> Ok(st, <<>>)
    [] op.o = "RStrB" -> Ok([st EXCEPT !.stack = Append(@, st.last), !.last = 0], <<>>)
    [] op.o = "RStrE" -> Ok([st EXCEPT !.last = st.stack[Len(st.stack)],
                                       !.stack = SubSeq(@, 1, Len(@) - 1)], <<>>)
    [] op.o = "RFldB" ->
         LET f == ComField(b, p, st.last) IN
         IF f.r = "err" THEN Err(st) ELSE IF f.r = "any" THEN AnyR(st)
         ELSE IF f.t = 0 THEN Ok(To(f.p), [t |-> 0])
         ELSE Ok([To(f.p) EXCEPT !.last = f.id,
                                 !.bool = IF f.t = T_BOOL THEN <<IF f.c = CTrue THEN 1 ELSE 0>> ELSE <<>>],
                 [t |-> f.t, id |-> f.id])
    [] op.o = "RMapB" ->
         LET h == ComMap(b, p)
         IN IF h.r = "ok" /\ h.n > Len(b) THEN OkErr(To(h.p), [kt |-> h.kt, t |-> h.t, n |-> h.n])
            ELSE IF h.r = "ok" /\ h.n = 0 THEN lift(h, [n |-> 0])
            ELSE lift(h, [kt |-> h.kt, t |-> h.t, n |-> h.n])
    [] op.o \in {"RLstB", "RSetB"} ->
         LET h == ComColl(b, p)
         IN IF h.r = "ok" /\ h.n > Len(b) THEN OkErr(To(h.p), [t |-> h.t, n |-> h.n])
            ELSE lift(h, [t |-> h.t, n |-> h.n])
    [] op.o = "RBool" ->
         IF st.bool # <<>> THEN Ok([st EXCEPT !.bool = <<>>], [n |-> st.bool[1]])
         ELSE IF ~Avail(b, p, 1) THEN Err(st)
         ELSE IF b[p] = CTrue THEN Ok(To(p + 1), [n |-> 1])
         ELSE IF b[p] = CFalse THEN Ok(To(p + 1), [n |-> 0])
         ELSE AnyR(st)
    [] op.o = "RByte" -> IF Avail(b, p, 1) THEN Ok(To(p + 1), [n |-> b[p]]) ELSE Err(st)
    [] op.o = "RI16" -> zz(2)
    [] op.o = "RI32" -> zz(4)
    [] op.o = "RI64" ->
         LET d == DecVar(b, p, 64)
         IN lift([r |-> d.r, p |-> p + d.k], [v |-> BytesOf(UnZigZag(d.bits), 8)])
    [] op.o = "RDbl" -> IF Avail(b, p, 8) THEN Ok(To(p + 8), [v |-> Reverse(Take(b, p, 8))]) ELSE Err(st)
    [] op.o \in {"RStr", "RBin"} -> LET s == ComStr(b, p) IN lift(s, [v |-> s.v])
    [] op.o = "RSkip" ->
         LET a == ComSkip(b, p, op.t, op.d, st.bool # <<>>)
         IN CASE a.r = "ok" -> Ok([To(a.p) EXCEPT !.bool = <<>>], <<>>)
              [] a.r = "err" -> Err(st)
              [] OTHER -> AnyR(st)
=============================================================================
