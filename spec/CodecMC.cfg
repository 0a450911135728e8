SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS RoundTrip SkipLands NoPrefixDecodes Emit
CONSTANTS
 TopTypes = {12, 13, 15}
 FieldTypes = {2, 8, 12, 15}
 ElemTypes = {2, 11, 12}
 FieldIds = {1, 2, 18}
 MaxFields = 2
 MaxElems = 1
 MaxDepth = 2
 MaxOps = 12
 Rich = FALSE
