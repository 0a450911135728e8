SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS WellFormed RoundTrip SkipLands NoPrefixDecodes EmitScripts
CONSTANTS
 TopTypes = {12, 13, 15}
 FieldTypes = {2, 8, 11, 12, 13, 15}
 ElemTypes = {2, 11, 12}
 FieldIds = {1, 2, 18}
 MaxFields = 2
 MaxElems = 2
 MaxDepth = 2
 MaxOps = 14
 Rich = FALSE
