------------------------------- MODULE MCOrder -------------------------------
(* Laws of concatenation and order on all triples of short words, and the    *)
(* packed representation as a refinement: letters side by side, b bits each, *)
(* last letter lowest.                                                       *)
EXTENDS Words, FiniteSets

CONSTANT Cases           \* set of <<letters, length>>

VARIABLES n, u, v, x
vars == <<n, u, v, x>>

Init == \E c \in Cases : /\ n = c[1]
                         /\ u \in AllWords(c[1], c[2])
                         /\ v \in AllWords(c[1], c[2])
                         /\ x \in AllWords(c[1], c[2])
Spec == Init /\ [][FALSE]_vars

Monoid  == /\ (u \o v) \o x = u \o (v \o x)
           /\ <<>> \o u = u /\ u \o <<>> = u
           /\ Len(u \o v) = Len(u) + Len(v)
Total   == /\ Cmp(u, v) = 0 - Cmp(v, u)
           /\ (Cmp(u, v) = 0) <=> (u = v)
           /\ Cmp(u, v) = -1 /\ Cmp(v, x) = -1 => Cmp(u, x) = -1
ByIndex == Cmp(u, v) = BCmp(Index(n, u), Index(n, v))
Split   == IndexN(n, u \o v) = IndexN(n, u) * n^Len(v) + IndexN(n, v)
Compatible == Cmp(u, v) = -1 => Cmp(x \o u, x \o v) = -1 /\ Cmp(u \o x, v \o x) = -1

B == BitsPerLetter(n)
RECURSIVE Pack(_, _)
Pack(z, j) == IF j > Len(z) THEN 0 ELSE z[j] * 2^(B * (Len(z) - j)) + Pack(z, j + 1)
Packed(z) == Pack(z, 1)
Unpack(d, k) == [j \in 1..k |-> (d \div 2^(B * (k - j))) % 2^B]
Packing == /\ Unpack(Packed(u), Len(u)) = u
           /\ Packed(u \o v) = Packed(u) * 2^(B * Len(v)) + Packed(v)
           /\ Cmp(u, v) = (IF Len(u) # Len(v) THEN (IF Len(u) < Len(v) THEN -1 ELSE 1)
                           ELSE IF Packed(u) < Packed(v) THEN -1
                           ELSE IF Packed(u) > Packed(v) THEN 1 ELSE 0)
Reads == /\ Reversed(Reversed(u)) = u
         /\ Reversed(u \o v) = Reversed(v) \o Reversed(u)
         /\ (RenderWord(u) = RenderWord(v)) <=> (u = v)
=============================================================================
