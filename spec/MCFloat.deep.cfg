CONSTANTS
 P = 4
 Low = 3
 High = 3
SPECIFICATION Spec
INVARIANTS Sum Difference Product Quotient Exact
CHECK_DEADLOCK FALSE
