SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS WellFormed RoundTrip SkipLands NoPrefixDecodes EmitScripts
CONSTANTS
 TopTypes = {2, 3, 4, 6, 8, 10, 11, 13, 14, 15}
 FieldTypes = {2}
 ElemTypes = {2, 3, 4, 6, 8, 10, 11}
 FieldIds = {1}
 MaxFields = 1
 MaxElems = 2
 MaxDepth = 1
 MaxOps = 10
 Rich = TRUE
