------------------------------- MODULE MCFloat -------------------------------
(* The rounding predicate picks exactly one number: all pairs of numbers of  *)
(* a toy format with P-bit mantissas.                                        *)
EXTENDS FloatMachine, FiniteSets

CONSTANTS P, Low, High      \* exponents from -Low to High
Emin == 0 - Low
Emax == High
F == [p |-> P, emin |-> Emin, emax |-> Emax]
Values == {<<0, <<>>, 0>>} \cup
          {<<sg, BOf(m), ex>> : sg \in {-1, 1}, m \in 2^(P - 1)..(2^P - 1), ex \in Emin..Emax} \cup
          {<<sg, BOf(m), Emin>> : sg \in {-1, 1}, m \in 1..(2^(P - 1) - 1)}
Results == Values \cup {<<7, <<>>, 0>>, <<0 - 7, <<>>, 0>>}
VARIABLES a, b
vars == <<a, b>>
Init == a \in Values /\ b = <<0, <<>>, 0>>
Choose == IsZero(b) /\ a' = a /\ b' \in Values
Spec == Init /\ [][Choose]_vars

Unique(x) == Cardinality({r \in Results : Nearest(F, x, r)}) = 1
Sum        == Unique(EAdd(a, b))
Difference == Unique(ESub(a, b))
Product    == Unique(EMul(a, b))
Quotient   == ~IsZero(b) => Unique(EDiv(a, b))
(* exact results are exact, and the signs are right *)
Exact == /\ Nearest(F, Of(a), a)
         /\ Nearest(F, EAdd(a, <<0 - b[1], b[2], b[3]>>), <<0, <<>>, 0>>) <=> (a = b)
         /\ \A r \in Results : (Nearest(F, Of(a), r) => r = a)
=============================================================================
