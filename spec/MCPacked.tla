------------------------------- MODULE MCPacked -------------------------------
(* The representation of a word inside a machine word of WordBits bits: a    *)
(* length and the letters less one, the last letter in the lowest bits.      *)
(* Every operation on the packed form does to the word it stands for what    *)
(* the specification of words says, for every word of every alphabet that    *)
(* fits (the library's machine word has 64 bits; a small one is explored     *)
(* completely).                                                              *)
(*                                                                           *)
(* A shift by WordBits or more is an error, as it is in the library's        *)
(* language.  Variant "unguarded" shifts an empty left operand as well: that *)
(* was a defect of the original code and serves as negative control.         *)
EXTENDS Words, FiniteSets, TLC

CONSTANTS WordBits, Widest, Variant

RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
Wrap(x) == x % Pow2(WordBits)
Error == -1
ShiftL(x, k) == IF k >= WordBits THEN Error ELSE Wrap(x * Pow2(k))
ShiftR(x, k) == IF k >= WordBits THEN Error ELSE x \div Pow2(k)

B(n) == BitsPerLetter(n)
Depth(n) == (WordBits - Log2((WordBits - 1) \div B(n))) \div B(n)

(* the operations on packed words *)
PNew == [size |-> 0, data |-> 0]
PLetter(l) == [size |-> 1, data |-> l - 1]
PGet(n, k, i) == (ShiftR(k.data, i * B(n)) % Pow2(B(n))) + 1
PPushFront(n, k, l) == [size |-> k.size + 1, data |-> Wrap(k.data + ShiftL(l - 1, k.size * B(n)))]
PSet(n, k, i, l) == [k EXCEPT !.data = Wrap(k.data - (PGet(n, k, i) - 1) * Pow2(i * B(n)) + ShiftL(l - 1, i * B(n)))]
PCat(n, k, m) == IF k.size = 0 /\ Variant = "good" THEN m
                 ELSE [size |-> k.size + m.size,
                       data |-> IF ShiftL(k.data, m.size * B(n)) = Error THEN Error ELSE Wrap(ShiftL(k.data, m.size * B(n)) + m.data)]
RECURSIVE PFold(_, _, _, _)
PFold(n, w, i, acc) == IF i > Len(w) THEN acc ELSE PFold(n, w, i + 1, Wrap(ShiftL(acc, B(n)) + w[i] - 1))
PFromLetters(n, w) == [size |-> Len(w), data |-> PFold(n, w, 1, 0)]
PCmp(k, m) == IF k.size < m.size THEN -1 ELSE IF k.size > m.size THEN 1
              ELSE IF k.data < m.data THEN -1 ELSE IF k.data > m.data THEN 1 ELSE 0
(* the enumeration carries from the last letter upwards *)
RECURSIVE PAdvance(_, _, _)
PAdvance(n, k, i) == IF i = k.size THEN PPushFront(n, k, 1)
                     ELSE IF PGet(n, k, i) = n THEN PAdvance(n, PSet(n, k, i, 1), i + 1)
                     ELSE PSet(n, k, i, PGet(n, k, i) + 1)
RECURSIVE PIndex(_, _, _, _)
PIndex(n, k, i, acc) == IF i = 0 THEN acc ELSE PIndex(n, k, i - 1, acc * n + PGet(n, k, i - 1))
RECURSIVE PAt(_, _, _)
PAt(n, pos, k) == IF pos = 0 THEN k ELSE PAt(n, (pos - 1) \div n, PPushFront(n, k, ((pos - 1) % n) + 1))

(* the word a packed word stands for *)
Word(n, k) == [i \in 1..k.size |-> PGet(n, k, k.size - i)]

VARIABLES n, k, w
vars == <<n, k, w>>

Init == n \in 1..Widest /\ Depth(n) > 0 /\ k = PNew /\ w = <<>>
Step == /\ ~(Len(w) = Depth(n) /\ \A i \in 1..Len(w) : w[i] = n)
        /\ w' = Succ(n, w) /\ k' = PAdvance(n, k, 0) /\ n' = n
Spec == Init /\ [][Step]_vars

InRange == k.data \in 0..(Pow2(WordBits) - 1) /\ k.size \in 0..Depth(n)
Stands == Word(n, k) = w
Built == /\ PFromLetters(n, w) = k
         /\ Len(w) = 1 => PLetter(w[1]) = k
         /\ Len(w) < Depth(n) => \A l \in 1..n : Word(n, PPushFront(n, k, l)) = <<l>> \o w
Written == \A i \in 1..Len(w) : \A l \in 1..n : Word(n, PSet(n, k, Len(w) - i, l)) = [w EXCEPT ![i] = l]
Numbered == PIndex(n, k, k.size, 0) = IndexN(n, w) /\ PAt(n, IndexN(n, w), PNew) = k
(* against every other word *)
Joined == \A v \in AllWords(n, Depth(n) - Len(w)) : PCat(n, k, PFromLetters(n, v)) = PFromLetters(n, w \o v)
Ordered == \A v \in AllWords(n, Depth(n)) :
             LET m == PFromLetters(n, v)
             IN  PCmp(k, m) = Cmp(w, v) /\ (k = m) = (w = v)
=============================================================================
