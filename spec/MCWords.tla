------------------------------- MODULE MCWords -------------------------------
(* The enumeration of all words, step by step, for several alphabets at      *)
(* once: numbering, degree blocks and order agree with each other.           *)
EXTENDS Words, FiniteSets

CONSTANT Deep            \* 0 or 1: add one to the depth

DepthOf(n) == Deep + (CASE n = 1 -> 14 [] n = 2 -> 7 [] n = 3 -> 5 [] n = 4 -> 4 [] n = 5 -> 3 [] OTHER -> 2)

VARIABLES n, w, i
vars == <<n, w, i>>

Init == n \in 1..8 /\ w = <<>> /\ i = 0
Step == /\ Len(Succ(n, w)) <= DepthOf(n)
        /\ w' = Succ(n, w) /\ i' = i + 1 /\ n' = n
Spec == Init /\ [][Step]_vars

(* i is the number of words enumerated before w *)
Numbering == /\ Index(n, w) = BOf(i) /\ IndexN(n, w) = i
             /\ WordAt(n, BOf(i)) = w /\ WordAtN(n, i) = w
Blocks    == /\ StartN(n, Len(w)) <= i /\ i < StartN(n, Len(w) + 1)
             /\ Start(n, Len(w)) = BOf(StartN(n, Len(w)))
             /\ DegreeOfIndex(n, BOf(i)) = Len(w) /\ DegOf(n, i) = Len(w)
             /\ (\A j \in 1..Len(w) : w[j] = 1) => i = StartN(n, Len(w))
Complete  == Len(Succ(n, w)) > DepthOf(n) => i + 1 = Cardinality(AllWords(n, DepthOf(n)))
Increasing == [][Cmp(w, w') = -1 /\ Cmp(w', w) = 1]_vars
(* nothing fits between a word and its successor *)
NoGap     == \A v \in AllWords(n, IF Len(w) <= 2 /\ n <= 3 THEN 3 ELSE 0) :
               Cmp(w, v) = -1 => Cmp(Succ(n, w), v) # 1
=============================================================================
