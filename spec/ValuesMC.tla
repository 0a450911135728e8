------------------------------ MODULE ValuesMC ------------------------------
(* The order the specification gives to values is an order: over all triples
   of a universe of small values of each type. *)
EXTENDS Values, TLC
CONSTANTS Bytes
W(n) == [1..n -> Bytes]
S(t, b) == [t |-> t, b |-> b, a |-> <<>>, v |-> <<>>]
Strs == UNION {W(n) : n \in 0..2}
Ints16 == {S(TI16, b) : b \in W(2)}
Dbls == {S(TDouble, <<b[1], b[2], 0, 0, 0, 0, 0, b[3]>>) : b \in W(3)}
Finite == {d \in Dbls : ~NaN(d.b)}
L(t, vs) == [t |-> TList, b |-> <<>>, a |-> <<t>>, v |-> vs]
Small == {S(TI16, b) : b \in {<<0, 0>>, <<255, 255>>, <<127, 255>>}}
Lsts == {L(TI16, v) : v \in UNION {[1..n -> Small] : n \in 0..2}} \cup {L(TString, <<>>), L(TBool, <<>>)}
LLsts == {L(TList, v) : v \in UNION {[1..n -> {L(TI16, <<>>), L(TI16, <<S(TI16, <<0, 1>>)>>), L(TByte, <<>>)}] : n \in 0..2}}
Univ == {{S(TString, b) : b \in Strs}, {S(TBinary, b) : b \in Strs}, Ints16, Finite, Lsts, LLsts, {S(TBool, <<0>>), S(TBool, <<1>>), Nil}}
VARIABLES x, y, z
Init == \E U \in Univ : x \in U /\ y \in U /\ z \in U
Next == UNCHANGED <<x, y, z>>
Spec == Init /\ [][Next]_<<x, y, z>>
Antisymmetric == Cmp(x, y) = -Cmp(y, x)
Equality == (Cmp(x, y) = 0) = Eq(x, y)
Transitive == Cmp(x, y) <= 0 /\ Cmp(y, z) <= 0 => Cmp(x, z) <= 0
(* the numbers meant *)
Signed(b) == LET u == 256 * b[1] + b[2] IN IF u >= 32768 THEN u - 65536 ELSE u
Numeric == x.t = TI16 /\ y.t = TI16 => Cmp(x, y) = Sign(Signed(x.b) - Signed(y.b))
=============================================================================
