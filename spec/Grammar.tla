------------------------------ MODULE Grammar ------------------------------
(* All well-formed histories of protocol write calls, as a pushdown machine:
   goal is what is still to be written, hist the calls made so far.         *)
EXTENDS Integers, Sequences, TLC, ThriftTypes
CONSTANTS TopTypes, FieldTypes, ElemTypes, FieldIds, MaxFields, MaxElems, MaxDepth, MaxOps, Rich
VARIABLES goal, hist

AllVals(t) == CASE t = T_BOOL -> {0, 1}
             [] t = T_BYTE -> {7, 200}
             [] t = T_I16 -> {<<0, 1>>, <<254, 212>>}
             [] t = T_I32 -> {<<0, 0, 0, 63>>, <<255, 255, 255, 191>>}
             [] t = T_I64 -> {<<0, 0, 0, 0, 0, 0, 0, 64>>, <<128, 0, 0, 0, 0, 0, 0, 0>>}
             [] t = T_DOUBLE -> {<<63, 240, 0, 0, 0, 0, 0, 1>>}
             [] t = T_STRING -> {<<>>, <<97, 98>>}
             [] OTHER -> {}
(* without Rich, one value per type (both booleans all the same) *)
Vals(t) == IF Rich \/ t = T_BOOL THEN AllVals(t) ELSE {CHOOSE v \in AllVals(t) : TRUE}
OpOf == (T_BOOL :> "Bool") @@ (T_BYTE :> "Byte") @@ (T_I16 :> "I16") @@ (T_I32 :> "I32") @@ (T_I64 :> "I64")
         @@ (T_DOUBLE :> "Dbl") @@ (T_STRING :> "Str")
Scalar(t, v) == IF t \in {T_BOOL, T_BYTE} THEN [o |-> OpOf[t], n |-> v] ELSE [o |-> OpOf[t], v |-> v]
V(t, d) == [g |-> "V", t |-> t, d |-> d]
Fields(n, d) == [g |-> "F", n |-> n, d |-> d]
Lit(o) == [g |-> "L", o |-> o]
Deep == {T_STRUCT, T_LIST, T_SET, T_MAP}
Fits(ts, d) == {t \in ts : d > 0 \/ t \notin Deep}
RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN <<>> ELSE s \o Times(s, n - 1)

GInit == hist = <<>> /\ \E t \in TopTypes : goal = <<V(t, MaxDepth)>>
Put(op, g) == hist' = Append(hist, op) /\ goal' = g

WriteScalar(h, rest) == h.g = "V" /\ h.t \notin Deep /\ \E v \in Vals(h.t) : Put(Scalar(h.t, v), rest)
BeginStruct(h, rest) == h.g = "V" /\ h.t = T_STRUCT /\ Put([o |-> "StrB", name |-> <<115>>], <<Fields(MaxFields, h.d - 1)>> \o rest)
WriteField(h, rest) == h.g = "F" /\ h.n > 0 /\ Len(hist) + Len(goal) < MaxOps
    /\ \E t \in Fits(FieldTypes, h.d), i \in FieldIds :
         Put([o |-> "FldB", name |-> <<102>>, t |-> t, id |-> i], <<V(t, h.d), Lit("FldE"), Fields(h.n - 1, h.d)>> \o rest)
EndStruct(h, rest) == h.g = "F" /\ Put([o |-> "Stop"], <<Lit("StrE")>> \o rest)
BeginList(h, rest) == h.g = "V" /\ h.t \in {T_LIST, T_SET}
    /\ \E t \in Fits(ElemTypes, h.d - 1), n \in 0..MaxElems :
         Put([o |-> IF h.t = T_LIST THEN "LstB" ELSE "SetB", t |-> t, n |-> n],
             Times(<<V(t, h.d - 1)>>, n) \o <<Lit(IF h.t = T_LIST THEN "LstE" ELSE "SetE")>> \o rest)
BeginMap(h, rest) == h.g = "V" /\ h.t = T_MAP
    /\ \E kt \in Fits(ElemTypes, 0), t \in Fits(ElemTypes, h.d - 1), n \in 0..MaxElems :
         Put([o |-> "MapB", kt |-> kt, t |-> t, n |-> n], Times(<<V(kt, 0), V(t, h.d - 1)>>, n) \o <<Lit("MapE")>> \o rest)
Literal(h, rest) == h.g = "L" /\ Put([o |-> h.o], rest)

GNext == /\ goal # <<>>
         /\ LET h == Head(goal)  rest == Tail(goal)
            IN \/ WriteScalar(h, rest) \/ BeginStruct(h, rest) \/ WriteField(h, rest) \/ EndStruct(h, rest)
               \/ BeginList(h, rest) \/ BeginMap(h, rest) \/ Literal(h, rest)
Done == goal = <<>>
=============================================================================
