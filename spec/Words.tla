-------------------------------- MODULE Words --------------------------------
(* Words over the alphabet 1..n (sequences of letters, first letter first),  *)
(* their graded lexicographic order and their numbering.                     *)
EXTENDS BigNat

Letters(n) == 1..n

RECURSIVE Log2(_)
Log2(k) == IF k < 2 THEN 0 ELSE Log2(k \div 2) + 1

BitsPerLetter(n) == Log2(n) + 1
SizeBits(n)      == Log2(63 \div BitsPerLetter(n))
MaxDepth(n)      == (64 - SizeBits(n)) \div BitsPerLetter(n)

Reversed(w) == [i \in 1..Len(w) |-> w[Len(w) + 1 - i]]

RECURSIVE LexCmp(_, _, _)
LexCmp(u, v, i) ==
    IF i > Len(u) THEN 0
    ELSE IF u[i] < v[i] THEN -1
    ELSE IF u[i] > v[i] THEN 1
    ELSE LexCmp(u, v, i + 1)

(* graded lexicographic comparison: -1, 0 or 1 *)
Cmp(u, v) == IF Len(u) < Len(v) THEN -1
             ELSE IF Len(u) > Len(v) THEN 1
             ELSE LexCmp(u, v, 1)

(* the word after w among all words *)
Succ(n, w) ==
    LET keep == {i \in 1..Len(w) : w[i] # n}
    IN  IF keep = {} THEN [i \in 1..(Len(w) + 1) |-> 1]
        ELSE LET j == CHOOSE i \in keep : \A k \in keep : k <= i
             IN  [i \in 1..Len(w) |-> IF i < j THEN w[i] ELSE IF i = j THEN w[i] + 1 ELSE 1]

IsLast(n, w) == Len(w) = MaxDepth(n) /\ \A i \in 1..Len(w) : w[i] = n

(* number of words before w, as a BigNat *)
RECURSIVE IndexFrom(_, _, _, _)
IndexFrom(n, w, i, acc) ==
    IF i > Len(w) THEN acc ELSE IndexFrom(n, w, i + 1, BMulAdd(acc, n, w[i]))
Index(n, w) == IndexFrom(n, w, 1, <<>>)

(* number of words shorter than d *)
RECURSIVE Start(_, _)
Start(n, d) == IF d = 0 THEN <<>> ELSE BMulAdd(Start(n, d - 1), n, 1)

(* the word with a given index *)
RECURSIVE WordAt(_, _)
WordAt(n, b) ==
    IF b = <<>> THEN <<>>
    ELSE LET qr == BDivMod(BSub(b, <<1>>), n)
         IN  WordAt(n, qr.q) \o <<qr.r + 1>>

RECURSIVE DegreeOfIndexFrom(_, _, _)
DegreeOfIndexFrom(n, b, d) ==
    IF BCmp(b, Start(n, d + 1)) < 0 THEN d ELSE DegreeOfIndexFrom(n, b, d + 1)
DegreeOfIndex(n, b) == DegreeOfIndexFrom(n, b, 0)

(* fits the machine's 64-bit unsigned numbers *)
Fits64(b) == BCmp(b, BPow2(64)) < 0

(* Decimal digits as character codes, and the rendering of a word *)
RECURSIVE Digits(_)
Digits(k) == IF k < 10 THEN <<48 + k>> ELSE Append(Digits(k \div 10), 48 + (k % 10))

RECURSIVE RenderLetters(_, _)
RenderLetters(ls, i) ==
    IF i > Len(ls) THEN <<>>
    ELSE (IF i > 1 THEN <<44, 32>> ELSE <<>>) \o Digits(ls[i]) \o RenderLetters(ls, i + 1)
RenderWord(w) == <<40>> \o RenderLetters(Reversed(w), 1) \o <<41>>

(* ---- the same numbering in native integers, for small indices ---- *)
(* (FarAway for indices of 2^30 and more: no vector has that many)            *)
FarAway == 1073741824
RECURSIVE IndexNFrom(_, _, _, _)
IndexNFrom(n, w, i, acc) == IF i > Len(w) THEN acc
                            ELSE IF w[i] >= FarAway \/ acc > (FarAway - w[i]) \div n THEN FarAway
                            ELSE IndexNFrom(n, w, i + 1, acc * n + w[i])
IndexN(n, w) == IndexNFrom(n, w, 1, 0)
RECURSIVE StartN(_, _)
StartN(n, d) == IF d = 0 THEN 0 ELSE StartN(n, d - 1) * n + 1
RECURSIVE DegOfFrom(_, _, _)
DegOfFrom(n, i, d) == IF i < StartN(n, d + 1) THEN d ELSE DegOfFrom(n, i, d + 1)
DegOf(n, i) == DegOfFrom(n, i, 0)
RECURSIVE WordAtN(_, _)
WordAtN(n, i) == IF i = 0 THEN <<>> ELSE Append(WordAtN(n, (i - 1) \div n), ((i - 1) % n) + 1)

AllWords(n, d) == UNION {[1..k -> 1..n] : k \in 0..d}
=============================================================================
