SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip SkipLands NoPrefixDecodes Emit
CONSTANTS
 TopTypes = {12}
 FieldTypes = {2, 8, 12}
 ElemTypes = {2}
 FieldIds = {1, 2, 16, 17}
 MaxFields = 3
 MaxElems = 1
 MaxDepth = 2
 MaxOps = 10
 Rich = FALSE
