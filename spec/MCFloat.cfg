CONSTANTS
 P = 3
 Low = 2
 High = 2
SPECIFICATION Spec
INVARIANTS Sum Difference Product Quotient Exact
CHECK_DEADLOCK FALSE
