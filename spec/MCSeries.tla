------------------------------- MODULE MCSeries -------------------------------
(* Exponential, logarithm and fused exponential are the inverse functions    *)
(* and products they are meant to be, on every tensor of a small algebra.    *)
EXTENDS Tensors, FiniteSets, TLC

CONSTANT Cases           \* set of <<n, p, dmax>>
VARIABLES c, x
vars == <<c, x>>
Init == c \in Cases /\ x = <<0>>
Choose == /\ Len(x) < StartN(c[1], c[3] + 1)
          /\ \E e \in 0..(c[2] - 1) : x' = Append(x, e)
          /\ c' = c
Spec == Init /\ [][Choose]_vars
n == c[1]
p == c[2]
D == c[3]
Up(a) == VTrunc(n, a, D)
E == VExp(n, p, x, D)
OnePlus == [x EXCEPT ![1] = 1]
LogExp == Same(Up(VLog(n, p, E, D)), x)
ExpLog == Same(Up(VExp(n, p, VLog(n, p, OnePlus, D), D)), OnePlus)
Inverse == Same(VMul(n, p, E, VExp(n, p, VNeg(p, x), D), D), <<1>>)
Fused == /\ Same(VFmexp(n, p, <<1>>, OnePlus, D), E)
         /\ Same(VFmexp(n, p, OnePlus, x, D), VMul(n, p, OnePlus, E, D))
=============================================================================
