CONSTANT Cases <- DeepCases
SPECIFICATION Spec
INVARIANTS Definition Associative Bilinear Unit Antisymmetric Jacobi Truncation
CHECK_DEADLOCK FALSE
