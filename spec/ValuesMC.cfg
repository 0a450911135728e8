SPECIFICATION Spec
INVARIANTS Antisymmetric Equality Transitive Numeric
CONSTANTS Bytes = {0, 127, 128, 255}
CHECK_DEADLOCK FALSE
