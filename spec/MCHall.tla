-------------------------------- MODULE MCHall --------------------------------
(* Size tables: the counts are those of the Lyndon words, enumerated; and a  *)
(* table that is grown in any steps.                                         *)
EXTENDS HallSizes, FiniteSets, TLC

CONSTANT Top             \* largest table length
DepthOf(n) == CASE n = 1 -> 8 [] n = 2 -> 9 [] n = 3 -> 6 [] n = 4 -> 5 [] OTHER -> 3

VARIABLES n, len, cum
vars == <<n, len, cum>>

Init == n \in 1..6 /\ len = 0 /\ cum = Cumulative(n, Top)
New(d) == len' = d /\ UNCHANGED <<n, cum>>
Grow(d) == len' = (IF d + 1 > len THEN d + 1 ELSE len) /\ UNCHANGED <<n, cum>>
Next == \E d \in 0..(Top - 1) : New(d) \/ Grow(d)
Spec == Init /\ [][Next]_vars

Rotate(w, k) == SubSeq(w, k + 1, Len(w)) \o SubSeq(w, 1, k)
RECURSIVE Less(_, _, _)
Less(u, v, i) == i <= Len(u) /\ (u[i] < v[i] \/ (u[i] = v[i] /\ Less(u, v, i + 1)))
IsLyndon(w) == \A k \in 1..(Len(w) - 1) : Less(w, Rotate(w, k), 1)
CountLyndon(k) == Cardinality({w \in [1..k -> 1..n] : IsLyndon(w)})

Witt == len = 0 => \A k \in 1..DepthOf(n) : LyndonCounts(n, k)[k] = BOf(CountLyndon(k))
Increasing == \A d \in 1..Top : BCmp(cum[d], cum[d + 1]) <= 0
Starts == cum[1] = <<>> /\ cum[2] = BOf(n)
(* every element of the known degrees is found, exactly there *)
Found == \A d \in 1..(len - 1) :
            LET lo == cum[d] hi == cum[d + 1] IN
            BCmp(lo, hi) < 0 => /\ FindFrom(cum, len, hi, 0) = d
                                /\ FindFrom(cum, len, BAdd(lo, <<1>>), 0) = d
                                /\ FindFrom(cum, d, hi, 0) = -1
GrowKeeps == [][len' < len => \E d \in 0..(Top - 1) : New(d)]_vars
=============================================================================
