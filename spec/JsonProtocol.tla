---------------------------- MODULE JsonProtocol ----------------------------
(* The JSON protocol (full = TRUE) and the simple JSON protocol as machines
   over a stream of JSON tokens.  A token is a record
     k    "{" "}" "[" "]" "," ":"   punctuation
          "str"   string; v: its characters as UTF-8 (va = 0 if they are not
                  specified), b/bs: its base64 decoding (bs: 1 good, 0 bad,
                  2 unspecified), i/d/sp: the number it quotes, if any
          "num"   number; i: as 64-bit integer, <<>> if it is none;
                  d: as double, <<>> if out of range; te = 1 if the stream
                  ends with it
          "true" "false" "null"
          "inf"   an unquoted NaN or Infinity
          "bstr"  a string with an illegal escape or character
          "err"   anything else      "end"  end of the stream
   st.ctx is the stack of contexts: "T" top level, "LF"/"L" list before/after
   its first element, "OF"/"ON" object before its first/a further key, "OV"
   object before a value, "N" inside a null that stands for a list or object.*)
EXTENDS Bytes, ThriftTypes, TLC

Ok(st, res)  == [r |-> "ok",    st |-> st, res |-> res, ek |-> -1]
OkErr(st, res) == [r |-> "okerr", st |-> st, res |-> res, ek |-> -1]
Err(st)      == [r |-> "err",   st |-> st, res |-> <<>>, ek |-> -1]
AnyR(st)     == [r |-> "any",   st |-> st, res |-> <<>>, ek |-> -1]

Top(ctx) == ctx[Len(ctx)]
Front(ctx) == SubSeq(ctx, 1, Len(ctx) - 1)
InKey(ctx) == Top(ctx) \in {"OF", "ON"}
Post(ctx) ==
  Front(ctx) \o << CASE Top(ctx) = "LF" -> "L"
                     [] Top(ctx) \in {"OF", "ON"} -> "OV"
                     [] Top(ctx) = "OV" -> "ON"
                     [] OTHER -> Top(ctx) >>

TypeName ==
  (T_BOOL :> <<116, 102>>) @@ (T_BYTE :> <<105, 56>>) @@ (T_DOUBLE :> <<100, 98, 108>>) @@
  (T_I16 :> <<105, 49, 54>>) @@ (T_I32 :> <<105, 51, 50>>) @@ (T_I64 :> <<105, 54, 52>>) @@
  (T_STRING :> <<115, 116, 114>>) @@ (T_BINARY :> <<115, 116, 114>>) @@ (T_STRUCT :> <<114, 101, 99>>) @@
  (T_MAP :> <<109, 97, 112>>) @@ (T_SET :> <<115, 101, 116>>) @@ (T_LIST :> <<108, 115, 116>>)
OddNames == {<<115, 116, 112>>, <<118>>, <<101, 110, 109>>, <<117, 49, 54>>, <<103, 101, 110>>}

NaNText == <<78, 97, 78>>
InfText == <<73, 110, 102, 105, 110, 105, 116, 121>>
IsSpecial(d) == d[1] % 128 = 127 /\ d[2] >= 240
IsNaN(d) == IsSpecial(d) /\ (d[2] > 240 \/ \E k \in 3..8 : d[k] # 0)
SameDouble(a, b) == a = b \/ (IsNaN(a) /\ IsNaN(b))

(* ------------------------------- writer ------------------------------- *)
(* The tokens one write call adds, as patterns: only the fields present in a
   pattern matter.                                                          *)
P(k) == [k |-> k]
IntP(bs, key) == [k |-> IF key THEN "str" ELSE "num", i |-> SignExt(bs, 8)]
StrP(v) == [k |-> "str", v |-> v]
DblP(v, key) == IF IsNaN(v) THEN StrP(NaNText)
                ELSE IF IsSpecial(v) THEN StrP((IF v[1] >= 128 THEN <<45>> ELSE <<>>) \o InfText)
                ELSE [k |-> IF key THEN "str" ELSE "num", d |-> v]
BinP(v) == [k |-> "str", b |-> v, bs |-> 1]
Nat8(n) == IntOfNat(n, 8)

Pre(ctx) == CASE Top(ctx) \in {"L", "ON"} -> <<P(",")>> [] Top(ctx) = "OV" -> <<P(":")>> [] OTHER -> <<>>

(* items: "v" a value (a: pattern), "o" opens (a: pattern, c: context), "c" closes *)
V(a) == [m |-> "v", a |-> a, c |-> ""]
IntItem(bs, key) == V(IntP(bs, key))
OpenL == [m |-> "o", a |-> P("["), c |-> "LF"]
OpenO == [m |-> "o", a |-> P("{"), c |-> "OF"]
CloseL == [m |-> "c", a |-> P("]"), c |-> ""]
CloseO == [m |-> "c", a |-> P("}"), c |-> ""]

RECURSIVE Emit(_, _, _)
Emit(items, ctx, out) ==
  IF items = <<>> THEN [out |-> out, ctx |-> ctx]
  ELSE LET h == Head(items)
       IN CASE h.m = "v" -> Emit(Tail(items), Post(ctx), out \o Pre(ctx) \o <<h.a>>)
            [] h.m = "o" -> Emit(Tail(items), Append(ctx, h.c), out \o Pre(ctx) \o <<h.a>>)
            [] h.m = "c" -> Emit(Tail(items), Post(Front(ctx)), out \o <<h.a>>)

Items(full, ctx, op) ==
  LET key == InKey(ctx) IN
  CASE op.o = "MsgB" -> <<OpenL>> \o (IF full THEN <<IntItem(<<1>>, FALSE)>> ELSE <<>>)
                        \o <<V(StrP(op.name)), IntItem(Nat8(op.t), FALSE), IntItem(op.v, FALSE)>>
    [] op.o = "StrB" -> <<OpenO>>
    [] op.o \in {"StrE"} -> <<CloseO>>
    [] op.o = "FldB" -> IF full THEN <<IntItem(I16Of(op.id), TRUE), OpenO, V(StrP(TypeName[op.t]))>>
                        ELSE <<V(StrP(op.name))>>
    [] op.o = "FldE" -> IF full THEN <<CloseO>> ELSE <<>>
    [] op.o = "MapB" -> IF full THEN <<OpenL, V(StrP(TypeName[op.kt])), V(StrP(TypeName[op.t])), IntItem(Nat8(op.n), FALSE)>>
                        ELSE <<OpenL, IntItem(Nat8(op.kt), FALSE), IntItem(Nat8(op.t), FALSE), IntItem(Nat8(op.n), FALSE)>>
    [] op.o \in {"LstB", "SetB"} -> <<OpenL, IntItem(Nat8(op.t), FALSE), IntItem(Nat8(op.n), FALSE)>>
    [] op.o \in {"MsgE", "MapE", "LstE", "SetE"} -> <<CloseL>>
    [] op.o = "Bool" -> <<V(P(IF op.n = 1 THEN "true" ELSE "false"))>>
    [] op.o = "Byte" -> <<IntItem(Nat8(op.n), key)>>
    [] op.o \in {"I16", "I32", "I64"} -> <<IntItem(op.v, key)>>
    [] op.o = "Dbl" -> <<V(DblP(op.v, key))>>
    [] op.o = "Str" -> <<V(StrP(op.v))>>
    [] op.o = "Bin" -> <<V(BinP(op.v))>>
    [] OTHER -> <<>>

JsonWInit == [ctx |-> <<"T">>]
JsonW(full, st, op) == LET e == Emit(Items(full, st.ctx, op), st.ctx, <<>>)
                       IN [out |-> e.out, st |-> [ctx |-> e.ctx]]

Match(pat, tok) == \A f \in DOMAIN pat :
   IF f = "d" THEN tok.d # <<>> /\ SameDouble(pat.d, tok.d) ELSE tok[f] = pat[f]

(* a pattern as a token of its own, for the design-level model *)
Plain == [k |-> "", v |-> <<>>, va |-> 1, b |-> <<>>, bs |-> 0, i |-> <<>>, d |-> <<>>, sp |-> 0, te |-> 0]
AsTok(pat) == LET t == pat @@ Plain
              IN IF pat.k = "str" /\ "v" \in DOMAIN pat /\ pat.v = NaNText THEN [t EXCEPT !.d = <<127, 248, 0, 0, 0, 0, 0, 1>>, !.sp = 1] ELSE t

(* ------------------------------- reader ------------------------------- *)
JsonRInit == [p |-> 1, ctx |-> <<"T">>]

(* position of the next value, 0 if there is none *)
ValuePos(st, toks) ==
  LET k == toks[st.p].k  c == Top(st.ctx)
      sep == CASE c \in {"L", "ON"} -> "," [] c = "OV" -> ":" [] OTHER -> ""
  IN IF sep = "" THEN st.p ELSE IF k = sep THEN st.p + 1 ELSE 0

Fits(i, n) == i = SignExt(LowBytes(i, n), 8)
IsByte(i) == Fits(i, 1) \/ \A k \in 1..7 : i[k] = 0
IsSize(i) == (\A k \in 1..4 : i[k] = 0) /\ i[5] < 128

(* outcome of taking token tok as a value of kind x: [r, v] *)
Take1(x, tok, ctx) ==
  LET key == InKey(ctx)
      cut == tok.te = 1 /\ Top(ctx) # "T"
      no == [r |-> "err", v |-> <<>>]
      yes(v) == [r |-> "ok", v |-> v]
      maybe(v) == [r |-> "okerr", v |-> v]
      unspec == [r |-> "any", v |-> <<>>]
      Whole(ok(_), cutto(_)) ==
        IF tok.k = "null" THEN maybe(cutto(Nat8(0)))
        ELSE IF tok.k \notin {"num", "str"} \/ tok.i = <<>> \/ cut \/ ~ok(tok.i) THEN no
        ELSE IF (tok.k = "str") = key THEN yes(cutto(tok.i)) ELSE maybe(cutto(tok.i))
  IN CASE x = "bool" -> IF tok.k \in {"true", "false"} THEN yes(IF tok.k = "true" THEN 1 ELSE 0)
                        ELSE IF tok.k = "null" THEN maybe(0) ELSE no
       [] x = "i8"  -> Whole(IsByte, LAMBDA i : i[8])
       [] x = "i16" -> Whole(LAMBDA i : Fits(i, 2), LAMBDA i : LowBytes(i, 2))
       [] x = "i32" -> Whole(LAMBDA i : Fits(i, 4), LAMBDA i : LowBytes(i, 4))
       [] x = "i64" -> Whole(LAMBDA i : TRUE, LAMBDA i : i)
       [] x = "size" -> Whole(IsSize, LAMBDA i : NatOf(LowBytes(i, 4)))
       [] x = "dbl" -> IF tok.k = "null" THEN maybe(Nat8(0))
                       ELSE IF tok.k = "inf" \/ tok.sp = 2 THEN unspec
                       ELSE IF tok.k \notin {"num", "str"} \/ tok.d = <<>> \/ cut THEN no
                       ELSE IF (tok.k = "str") = key \/ tok.sp = 1 THEN yes(tok.d) ELSE maybe(tok.d)
       [] x = "str" -> IF tok.k = "null" THEN maybe(<<>>)
                       ELSE IF tok.k # "str" THEN no
                       ELSE IF tok.va = 0 THEN unspec ELSE yes(tok.v)
       [] x = "bin" -> IF tok.k = "null" THEN maybe(<<>>)
                       ELSE IF tok.k = "bstr" THEN unspec
                       ELSE IF tok.k # "str" THEN no
                       ELSE IF tok.bs = 2 THEN unspec ELSE IF tok.bs = 1 THEN yes(tok.b) ELSE no
       [] x = "type" -> (* a type name *)
                       IF tok.k = "str" /\ tok.va = 1 /\ \E t \in DOMAIN TypeName : TypeName[t] = tok.v
                       THEN yes(CHOOSE t \in DOMAIN TypeName \ {T_BINARY} : TypeName[t] = tok.v)
                       ELSE IF tok.k = "str" /\ (tok.va = 0 \/ tok.v \in OddNames) THEN unspec
                       ELSE no
       [] x = "one" -> IF tok.k = "num" /\ tok.i = Nat8(1) THEN yes(1)
                       ELSE IF tok.k = "str" /\ tok.i = Nat8(1) THEN maybe(1) ELSE no

(* reads a sequence of items in order; [r, st, vs] *)
RECURSIVE ReadItems(_, _, _, _, _)
ReadItems(toks, st, xs, r, vs) ==
  IF xs = <<>> THEN [r |-> r, st |-> st, vs |-> vs]
  ELSE LET q == ValuePos(st, toks)
           x == Head(xs)
       IN IF q = 0 THEN [r |-> "err", st |-> st, vs |-> vs]
          ELSE IF x \in {"[", "{"}
          THEN IF toks[q].k = x
               THEN ReadItems(toks, [p |-> q + 1, ctx |-> Append(st.ctx, IF x = "[" THEN "LF" ELSE "OF")], Tail(xs), r, vs)
               ELSE [r |-> IF toks[q].k = "null" THEN "null" ELSE "err",
                     st |-> [p |-> q + 1, ctx |-> Append(st.ctx, "N")], vs |-> vs]
          ELSE LET o == Take1(x, toks[q], st.ctx)
                   st2 == [p |-> q + 1, ctx |-> Post(st.ctx)]
               IN CASE o.r \in {"err", "any"} -> [r |-> o.r, st |-> st, vs |-> vs]
                    [] OTHER -> ReadItems(toks, st2, Tail(xs), IF o.r = "okerr" THEN "okerr" ELSE r, Append(vs, o.v))

Scalar(toks, st, x, Res(_)) ==
  LET a == ReadItems(toks, st, <<x>>, "ok", <<>>)
  IN CASE a.r = "ok" -> Ok(a.st, Res(a.vs[1])) [] a.r = "okerr" -> OkErr(a.st, Res(a.vs[1]))
       [] a.r = "any" -> AnyR(st) [] OTHER -> Err(st)

(* a container header; a null in its place reads as an empty one, or not at all *)
Header(toks, st, xs, empty, Res(_), Good(_)) ==
  LET a == ReadItems(toks, st, xs, "ok", <<>>)
  IN CASE a.r = "null" -> IF Len(a.vs) = 0 /\ Len(a.st.ctx) = Len(st.ctx) + 1 THEN OkErr(a.st, empty) ELSE Err(st)
       [] a.r = "ok" -> IF Good(a.vs) THEN Ok(a.st, Res(a.vs)) ELSE OkErr(a.st, Res(a.vs))
       [] a.r = "okerr" -> OkErr(a.st, Res(a.vs))
       [] a.r = "any" -> AnyR(st)
       [] OTHER -> Err(st)

End(toks, st, k) ==
  IF Top(st.ctx) = "N" THEN Ok([p |-> st.p, ctx |-> Post(Front(st.ctx))], <<>>)
  ELSE IF toks[st.p].k = k /\ Top(st.ctx) \in (IF k = "]" THEN {"L"} ELSE {"OF", "ON"})
       THEN Ok([p |-> st.p + 1, ctx |-> Post(Front(st.ctx))], <<>>)
  ELSE Err(st)

Known(t) == t \in WireTypes \cup {T_BINARY}

RECURSIVE JsonR(_, _, _, _), SkipN(_, _, _, _, _), SkipFields(_, _, _)
JsonR(full, st, toks, op) ==
  CASE op.o = "RMsgB" ->
         LET g(vs) == LET n == Len(vs) IN [name |-> vs[n-2], t |-> vs[n-1], v |-> vs[n]]
             a == ReadItems(toks, st, <<"[">> \o (IF full THEN <<"one">> ELSE <<>>) \o <<"str", "i8", "i32">>, "ok", <<>>)
         IN CASE a.r = "ok" -> IF g(a.vs).t \in 1..4 THEN Ok(a.st, g(a.vs)) ELSE OkErr(a.st, g(a.vs))
              [] a.r = "okerr" -> OkErr(a.st, g(a.vs)) [] a.r = "any" -> AnyR(st) [] OTHER -> Err(st)
    [] op.o = "RStrB" -> Header(toks, st, <<"{">>, <<>>, LAMBDA vs : <<>>, LAMBDA vs : TRUE)
    [] op.o = "RStrE" -> End(toks, st, "}")
    [] op.o = "RFldB" ->
         IF Top(st.ctx) = "N" THEN Ok(st, [t |-> 0])
         ELSE IF ~InKey(st.ctx) THEN Err(st)
         ELSE IF toks[st.p].k = "}" THEN Ok(st, [t |-> 0])
         ELSE IF full THEN LET a == ReadItems(toks, st, <<"i16", "{", "type">>, "ok", <<>>)
                               res == [t |-> a.vs[2], id |-> IntOf16(a.vs[1])]
                           IN CASE a.r = "ok" -> Ok(a.st, res) [] a.r = "okerr" -> OkErr(a.st, res)
                                [] a.r = "any" -> AnyR(st) [] OTHER -> Err(st)
         ELSE LET a == ReadItems(toks, st, <<"str">>, "ok", <<>>)
              IN CASE a.r = "ok" -> Ok(a.st, [name |-> a.vs[1], t |-> 127, id |-> -1])
                   [] a.r \in {"any", "okerr"} -> AnyR(st) [] OTHER -> Err(st)
    [] op.o = "RFldE" -> IF full THEN End(toks, st, "}") ELSE Ok(st, <<>>)
    [] op.o = "RMapB" ->
         Header(toks, st, IF full THEN <<"[", "type", "type", "size">> ELSE <<"[", "i8", "i8", "size">>, [n |-> 0],
                LAMBDA vs : [kt |-> vs[1], t |-> vs[2], n |-> vs[3]],
                LAMBDA vs : Known(vs[1]) /\ Known(vs[2]) /\ vs[3] <= Len(toks))
    [] op.o \in {"RLstB", "RSetB"} ->
         Header(toks, st, <<"[", "i8", "size">>, [n |-> 0],
                LAMBDA vs : [t |-> vs[1], n |-> vs[2]],
                LAMBDA vs : Known(vs[1]) /\ vs[2] <= Len(toks))
    [] op.o \in {"RMsgE", "RMapE", "RLstE", "RSetE"} -> End(toks, st, "]")
    [] op.o = "RBool" -> Scalar(toks, st, "bool", LAMBDA v : [n |-> v])
    [] op.o = "RByte" -> Scalar(toks, st, "i8", LAMBDA v : [n |-> v])
    [] op.o = "RI16" -> Scalar(toks, st, "i16", LAMBDA v : [v |-> v])
    [] op.o = "RI32" -> Scalar(toks, st, "i32", LAMBDA v : [v |-> v])
    [] op.o = "RI64" -> Scalar(toks, st, "i64", LAMBDA v : [v |-> v])
    [] op.o = "RDbl" -> Scalar(toks, st, "dbl", LAMBDA v : [d |-> v])
    [] op.o = "RStr" -> Scalar(toks, st, "str", LAMBDA v : [v |-> v])
    [] op.o = "RBin" -> Scalar(toks, st, "bin", LAMBDA v : [v |-> v])
    [] op.o = "RSkip" ->
         IF op.d <= 0 THEN Err(st)
         ELSE CASE op.t = T_BOOL -> Scalar(toks, st, "bool", LAMBDA v : <<>>)
                [] op.t = T_BYTE -> Scalar(toks, st, "i8", LAMBDA v : <<>>)
                [] op.t = T_I16 -> Scalar(toks, st, "i16", LAMBDA v : <<>>)
                [] op.t = T_I32 -> Scalar(toks, st, "i32", LAMBDA v : <<>>)
                [] op.t = T_I64 -> Scalar(toks, st, "i64", LAMBDA v : <<>>)
                [] op.t = T_DOUBLE -> Scalar(toks, st, "dbl", LAMBDA v : <<>>)
                [] op.t \in {T_STRING, T_BINARY} -> Scalar(toks, st, "str", LAMBDA v : <<>>)
                [] op.t = T_STRUCT ->
                     LET a == JsonR(full, st, toks, [o |-> "RStrB"])
                     IN IF a.r # "ok" THEN (IF a.r = "okerr" THEN AnyR(st) ELSE a)
                        ELSE SkipFields(toks, a.st, op.d)
                [] op.t \in {T_MAP, T_LIST, T_SET} ->
                     LET a == JsonR(full, st, toks, [o |-> IF op.t = T_MAP THEN "RMapB" ELSE "RLstB"])
                     IN IF a.r = "err" THEN a
                        ELSE IF a.r = "okerr" /\ a.res.n > Len(toks) THEN Err(st)
                        ELSE IF a.r # "ok" THEN AnyR(st)
                        ELSE SkipN(toks, a.st, IF op.t = T_MAP THEN <<a.res.kt, a.res.t>> ELSE <<a.res.t>>, a.res.n, op.d - 1)
                [] OTHER -> AnyR(st)
SkipN(toks, st, ts, n, d) ==
  IF n = 0 THEN End(toks, st, "]")
  ELSE LET a == JsonR(TRUE, st, toks, [o |-> "RSkip", t |-> ts[1], d |-> d])
       IN IF a.r # "ok" THEN (IF a.r = "okerr" THEN AnyR(st) ELSE a)
          ELSE IF Len(ts) = 1 THEN SkipN(toks, a.st, ts, n - 1, d)
          ELSE LET c == JsonR(TRUE, a.st, toks, [o |-> "RSkip", t |-> ts[2], d |-> d])
               IN IF c.r # "ok" THEN (IF c.r = "okerr" THEN AnyR(st) ELSE c) ELSE SkipN(toks, c.st, ts, n - 1, d)
SkipFields(toks, st, d) ==
  LET f == JsonR(TRUE, st, toks, [o |-> "RFldB"])
  IN IF f.r = "err" THEN f ELSE IF f.r # "ok" THEN AnyR(st)
     ELSE IF f.res.t = 0 THEN End(toks, f.st, "}")
     ELSE LET a == JsonR(TRUE, f.st, toks, [o |-> "RSkip", t |-> f.res.t, d |-> d - 1])
          IN IF a.r # "ok" THEN (IF a.r = "okerr" THEN AnyR(st) ELSE a)
             ELSE LET e == End(toks, a.st, "}")
                  IN IF e.r # "ok" THEN e ELSE SkipFields(toks, e.st, d)
=============================================================================
