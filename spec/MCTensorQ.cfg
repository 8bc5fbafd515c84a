CONSTANT Cases <- QuickCases
SPECIFICATION Spec
INVARIANTS Definition Associative Bilinear Unit Antisymmetric Jacobi Truncation
CHECK_DEADLOCK FALSE
