---- MODULE GenRpcMC_TTrace_1795071938 ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, GenRpcMC

_expression ==
    LET GenRpcMC_TEExpression == INSTANCE GenRpcMC_TEExpression
    IN GenRpcMC_TEExpression!expression
----

_trace ==
    LET GenRpcMC_TETrace == INSTANCE GenRpcMC_TETrace
    IN GenRpcMC_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        waiting = (FALSE)
        /\
        calls = (<<[a |-> [t |-> "STRUCT", v |-> "fire_args", a |-> <<[t |-> "I32", v |-> "1", a |-> <<>>, i |-> 0]>>, i |-> 0], m |-> "fire", x |-> [t |-> "STRUCT", v |-> "fire_result", a |-> <<>>, i |-> 0], err |-> TRUE]>>)
        /\
        handled = (<<[a |-> [t |-> "STRUCT", v |-> "fire_args", a |-> <<[t |-> "I32", v |-> "1", a |-> <<>>, i |-> 0]>>, i |-> 0], m |-> "fire", seq |-> 1]>>)
        /\
        net = (<<>>)
        /\
        rep = (<<[m |-> "fire", seq |-> 1, w |-> [t |-> "NIL", v |-> "", a |-> <<>>, i |-> 0], ty |-> 3]>>)
        /\
        got = (<<>>)
    )
----

_init ==
    /\ net = _TETrace[1].net
    /\ rep = _TETrace[1].rep
    /\ calls = _TETrace[1].calls
    /\ got = _TETrace[1].got
    /\ waiting = _TETrace[1].waiting
    /\ handled = _TETrace[1].handled
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ net  = _TETrace[i].net
        /\ net' = _TETrace[j].net
        /\ rep  = _TETrace[i].rep
        /\ rep' = _TETrace[j].rep
        /\ calls  = _TETrace[i].calls
        /\ calls' = _TETrace[j].calls
        /\ got  = _TETrace[i].got
        /\ got' = _TETrace[j].got
        /\ waiting  = _TETrace[i].waiting
        /\ waiting' = _TETrace[j].waiting
        /\ handled  = _TETrace[i].handled
        /\ handled' = _TETrace[j].handled

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("GenRpcMC_TTrace_1795071938.json", _TETrace)

=============================================================================

 Note that you can extract this module `GenRpcMC_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `GenRpcMC_TEExpression.tla` file takes precedence 
  over the module `GenRpcMC_TEExpression` below).

---- MODULE GenRpcMC_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Naturals, TLC, GenRpcMC

expression == 
    [
        \* To hide variables of the `GenRpcMC` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        net |-> net
        ,rep |-> rep
        ,calls |-> calls
        ,got |-> got
        ,waiting |-> waiting
        ,handled |-> handled
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_netUnchanged |-> net = net'
        
        \* Format the `net` variable as Json value.
        \* ,_netJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(net)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_netModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].net # _TETrace[s-1].net
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE GenRpcMC_TETrace ----
\*EXTENDS IOUtils, TLC, GenRpcMC
\*
\*trace == IODeserialize("GenRpcMC_TTrace_1795071938.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE GenRpcMC_TETrace ----
EXTENDS TLC, GenRpcMC

trace == 
    <<
    ([waiting |-> FALSE,calls |-> <<>>,handled |-> <<>>,net |-> <<>>,rep |-> <<>>,got |-> <<>>]),
    ([waiting |-> FALSE,calls |-> <<[a |-> [t |-> "STRUCT", v |-> "fire_args", a |-> <<[t |-> "I32", v |-> "1", a |-> <<>>, i |-> 0]>>, i |-> 0], m |-> "fire", x |-> [t |-> "STRUCT", v |-> "fire_result", a |-> <<>>, i |-> 0], err |-> TRUE]>>,handled |-> <<>>,net |-> <<[m |-> "fire", seq |-> 1, w |-> [t |-> "STRUCT", v |-> "fire_args", a |-> <<[t |-> "FIELD", v |-> "n", a |-> <<[t |-> "I32", v |-> "1", a |-> <<>>, i |-> 0]>>, i |-> 1]>>, i |-> 0]]>>,rep |-> <<>>,got |-> <<>>]),
    ([waiting |-> FALSE,calls |-> <<[a |-> [t |-> "STRUCT", v |-> "fire_args", a |-> <<[t |-> "I32", v |-> "1", a |-> <<>>, i |-> 0]>>, i |-> 0], m |-> "fire", x |-> [t |-> "STRUCT", v |-> "fire_result", a |-> <<>>, i |-> 0], err |-> TRUE]>>,handled |-> <<[a |-> [t |-> "STRUCT", v |-> "fire_args", a |-> <<[t |-> "I32", v |-> "1", a |-> <<>>, i |-> 0]>>, i |-> 0], m |-> "fire", seq |-> 1]>>,net |-> <<>>,rep |-> <<[m |-> "fire", seq |-> 1, w |-> [t |-> "NIL", v |-> "", a |-> <<>>, i |-> 0], ty |-> 3]>>,got |-> <<>>])
    >>
----


=============================================================================

---- CONFIG GenRpcMC_TTrace_1795071938 ----
CONSTANTS
    Depth = 2
    Deviation = "oneway"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Thu Nov 19 07:05:39 UTC 2026