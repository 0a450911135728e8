---------------------------- MODULE ThriftTypes ----------------------------
(* Thrift type codes as the wire protocols use them. *)
EXTENDS Integers
T_STOP == 0   T_BOOL == 2   T_BYTE == 3   T_DOUBLE == 4  T_I16 == 6   T_I32 == 8
T_I64 == 10   T_STRING == 11  T_STRUCT == 12  T_MAP == 13  T_SET == 14  T_LIST == 15
T_BINARY == 18
WireTypes == {T_BOOL, T_BYTE, T_DOUBLE, T_I16, T_I32, T_I64, T_STRING, T_STRUCT, T_MAP, T_SET, T_LIST}
Scalars == {T_BOOL, T_BYTE, T_DOUBLE, T_I16, T_I32, T_I64, T_STRING}
(* strings and binaries share one wire type *)
Wire(t) == IF t = T_BINARY THEN T_STRING ELSE t
CALL == 1  REPLY == 2  EXCEPTION == 3  ONEWAY == 4
=============================================================================
