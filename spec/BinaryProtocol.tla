--------------------------- MODULE BinaryProtocol ---------------------------
(* The Thrift binary protocol as a pair of state machines over one byte
   stream.  BinW(cfg, st, op) is the writer: the bytes one write call adds.
   BinR(cfg, st, b, op) is the reader: what one read call must return at
   position st.p of stream b.  Results of the reader carry
     r = "ok"    the call succeeds with exactly the result res
         "err"   the call reports an error (ek >= 0: of that kind)
         "okerr" either of the two (input no peer is entitled to send)
         "any"   not specified; nothing after it is either            *)
EXTENDS Bytes, ThriftTypes, FiniteSets, TLC

Ok(st, res)  == [r |-> "ok",    st |-> st, res |-> res, ek |-> -1]
OkErr(st, res) == [r |-> "okerr", st |-> st, res |-> res, ek |-> -1]
Err(st)      == [r |-> "err",   st |-> st, res |-> <<>>, ek |-> -1]
ErrK(st, k)  == [r |-> "err",   st |-> st, res |-> <<>>, ek |-> k]
AnyR(st)     == [r |-> "any",   st |-> st, res |-> <<>>, ek |-> -1]
BAD_VERSION == 4

LenPrefixed(s) == IntOfNat(Len(s), 4) \o s

(* ------------------------------- writer ------------------------------- *)
BinEncMsg(strict, name, t, seq) ==
  IF strict THEN <<128, 1, 0, t>> \o LenPrefixed(name) \o seq
  ELSE LenPrefixed(name) \o <<t>> \o seq

BinEnc(strict, op) ==
  CASE op.o = "MsgB" -> BinEncMsg(strict, op.name, op.t, op.v)
    [] op.o = "FldB" -> <<Wire(op.t)>> \o I16Of(op.id)
    [] op.o = "Stop" -> <<0>>
    [] op.o = "MapB" -> <<Wire(op.kt), Wire(op.t)>> \o IntOfNat(op.n, 4)
    [] op.o \in {"LstB", "SetB"} -> <<Wire(op.t)>> \o IntOfNat(op.n, 4)
    [] op.o = "Bool" -> <<op.n>>
    [] op.o = "Byte" -> <<op.n>>
    [] op.o \in {"I16", "I32", "I64", "Dbl"} -> op.v
    [] op.o \in {"Str", "Bin"} -> LenPrefixed(op.v)
    [] OTHER -> <<>>

BinW(cfg, st, op) == [out |-> BinEnc(cfg.sw = 1, op), st |-> st]
BinWInit == [x |-> 0]

(* ------------------------------- reader ------------------------------- *)
BinRInit == [p |-> 1]

Known(t) == t \in WireTypes

FixedSize == (T_BOOL :> 1) @@ (T_BYTE :> 1) @@ (T_I16 :> 2) @@ (T_I32 :> 4) @@ (T_I64 :> 8) @@ (T_DOUBLE :> 8)

(* consumes one value; [r, p] with r as above *)
RECURSIVE BinSkip(_, _, _, _), BinSkipN(_, _, _, _, _), BinSkipFields(_, _, _)
BinSkip(b, p, t, d) ==
  LET fixed(n) == IF Avail(b, p, n) THEN [r |-> "ok", p |-> p + n]
                  ELSE [r |-> "err", p |-> p]
      bad == [r |-> "err", p |-> p]
      unspec == [r |-> "any", p |-> p]
  IN IF d <= 0 THEN bad
  ELSE CASE t = T_BOOL -> fixed(1)
    [] t = T_BYTE -> fixed(1)
    [] t = T_I16 -> fixed(2)
    [] t = T_I32 -> fixed(4)
    [] t \in {T_I64, T_DOUBLE} -> fixed(8)
    [] t = T_STRING ->
         IF ~Avail(b, p, 4) THEN bad
         ELSE IF b[p] >= 128 THEN bad
         ELSE LET n == NatOf(Take(b, p, 4))
              IN IF n > Len(b) \/ ~Avail(b, p + 4, n) THEN bad
                 ELSE [r |-> "ok", p |-> p + 4 + n]
    [] t = T_STRUCT -> BinSkipFields(b, p, d)
    [] t = T_MAP ->
         IF ~Avail(b, p, 6) \/ b[p+2] >= 128 THEN bad
         ELSE LET n == NatOf(Take(b, p+2, 4))
              IN IF n > Len(b) /\ b[p] \in WireTypes THEN bad
                 ELSE BinSkipN(b, p + 6, <<b[p], b[p+1]>>, n, d - 1)
    [] t \in {T_SET, T_LIST} ->
         IF ~Avail(b, p, 5) \/ b[p+1] >= 128 THEN bad
         ELSE LET n == NatOf(Take(b, p+1, 4))
              IN IF n > Len(b) /\ b[p] \in WireTypes THEN bad
                 ELSE BinSkipN(b, p + 5, <<b[p]>>, n, d - 1)
    [] t \in {0, 1, 16, 17, 18, 127} -> unspec
    [] OTHER -> bad
BinSkipN(b, p, ts, n, d) ==
  IF n = 0 THEN [r |-> "ok", p |-> p]
  ELSE IF n > 64 /\ \A i \in 1..Len(ts) : ts[i] \in DOMAIN FixedSize
       THEN (* the same, without walking through them *)
            LET len == n * (IF Len(ts) = 1 THEN FixedSize[ts[1]] ELSE FixedSize[ts[1]] + FixedSize[ts[2]])
            IN IF d <= 0 \/ ~Avail(b, p, len) THEN [r |-> "err", p |-> p] ELSE [r |-> "ok", p |-> p + len]
  ELSE LET a == BinSkip(b, p, ts[1], d)
       IN IF a.r # "ok" THEN a
          ELSE IF Len(ts) = 1 THEN BinSkipN(b, a.p, ts, n - 1, d)
          ELSE LET c == BinSkip(b, a.p, ts[2], d)
               IN IF c.r # "ok" THEN c ELSE BinSkipN(b, c.p, ts, n - 1, d)
BinSkipFields(b, p, d) ==
  IF ~Avail(b, p, 1) THEN [r |-> "err", p |-> p]
  ELSE IF b[p] = 0 THEN [r |-> "ok", p |-> p + 1]
  ELSE IF ~Avail(b, p, 3) THEN [r |-> "err", p |-> p]
  ELSE LET a == BinSkip(b, p + 3, b[p], d - 1)
       IN IF a.r # "ok" THEN a ELSE BinSkipFields(b, a.p, d)

(* string body of n bytes at p, as a record of position and content *)
BinStr(b, p) ==
  IF ~Avail(b, p, 4) \/ b[p] >= 128 THEN [ok |-> FALSE, p |-> p, v |-> <<>>]
  ELSE LET n == NatOf(Take(b, p, 4))
       IN IF n > Len(b) \/ ~Avail(b, p+4, n) THEN [ok |-> FALSE, p |-> p, v |-> <<>>]
          ELSE [ok |-> TRUE, p |-> p + 4 + n, v |-> Take(b, p+4, n)]

BinRMsg(strict, st, b) ==
  LET p == st.p IN
  IF ~Avail(b, p, 4) THEN Err(st)
  ELSE IF b[p] >= 128 THEN
    IF b[p] # 128 \/ b[p+1] # 1 THEN ErrK(st, BAD_VERSION)
    ELSE LET s == BinStr(b, p + 4) IN
         IF ~s.ok \/ ~Avail(b, s.p, 4) THEN Err(st)
         ELSE LET res == [name |-> s.v, t |-> b[p+3], v |-> Take(b, s.p, 4)]
                  st2 == [st EXCEPT !.p = s.p + 4]
              IN IF b[p+2] = 0 /\ b[p+3] \in 1..4 THEN Ok(st2, res) ELSE OkErr(st2, res)
  ELSE IF strict THEN ErrK(st, BAD_VERSION)
  ELSE LET s == BinStr(b, p) IN
       IF ~s.ok \/ ~Avail(b, s.p, 5) THEN Err(st)
       ELSE LET res == [name |-> s.v, t |-> b[s.p], v |-> Take(b, s.p + 1, 4)]
                st2 == [st EXCEPT !.p = s.p + 5]
            IN IF b[s.p] \in 1..4 THEN Ok(st2, res) ELSE OkErr(st2, res)

BinR(cfg, st, b, op) ==
  LET p == st.p
      To(q) == [st EXCEPT !.p = q]
      fixed(n) == IF Avail(b, p, n) THEN Ok(To(p + n), [v |-> Take(b, p, n)]) ELSE Err(st)
  IN CASE op.o = "RMsgB" -> BinRMsg(cfg.sr = 1, st, b)
    [] op.o \in {"RMsgE", "RStrB", "RStrE", "RFldE", "RMapE", "RLstE", "RSetE"} -> Ok(st, <<>>)
    [] op.o = "RFldB" ->
         IF ~Avail(b, p, 1) THEN Err(st)
         ELSE IF b[p] = 0 THEN Ok(To(p + 1), [t |-> 0])
         ELSE IF ~Avail(b, p, 3) THEN Err(st)
         ELSE LET res == [t |-> b[p], id |-> IntOf16(Take(b, p+1, 2))]
              IN IF Known(b[p]) THEN Ok(To(p + 3), res) ELSE OkErr(To(p + 3), res)
    [] op.o = "RMapB" ->
         IF ~Avail(b, p, 6) \/ b[p+2] >= 128 THEN Err(st)
         ELSE LET n == NatOf(Take(b, p+2, 4))
                  res == [kt |-> b[p], t |-> b[p+1], n |-> n]
              IN IF n <= Len(b) /\ (n = 0 \/ (Known(b[p]) /\ Known(b[p+1])))
                 THEN Ok(To(p + 6), res) ELSE OkErr(To(p + 6), res)
    [] op.o \in {"RLstB", "RSetB"} ->
         IF ~Avail(b, p, 5) \/ b[p+1] >= 128 THEN Err(st)
         ELSE LET n == NatOf(Take(b, p+1, 4))
                  res == [t |-> b[p], n |-> n]
              IN IF n <= Len(b) /\ (n = 0 \/ Known(b[p]))
                 THEN Ok(To(p + 5), res) ELSE OkErr(To(p + 5), res)
    [] op.o = "RBool" ->
         IF ~Avail(b, p, 1) THEN Err(st)
         ELSE IF b[p] \in {0, 1} THEN Ok(To(p + 1), [n |-> b[p]]) ELSE AnyR(st)
    [] op.o = "RByte" -> IF Avail(b, p, 1) THEN Ok(To(p + 1), [n |-> b[p]]) ELSE Err(st)
    [] op.o = "RI16" -> fixed(2)
    [] op.o = "RI32" -> fixed(4)
    [] op.o \in {"RI64", "RDbl"} -> fixed(8)
    [] op.o \in {"RStr", "RBin"} ->
         LET s == BinStr(b, p) IN IF s.ok THEN Ok(To(s.p), [v |-> s.v]) ELSE Err(st)
    [] op.o = "RSkip" ->
         LET a == BinSkip(b, p, op.t, op.d)
         IN CASE a.r = "ok" -> Ok(To(a.p), <<>>)
              [] a.r = "err" -> Err(st)
              [] OTHER -> AnyR(st)
=============================================================================
