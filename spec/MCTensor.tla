------------------------------- MODULE MCTensor -------------------------------
(* The product of Tensors.tla (computed on indices) is the concatenation     *)
(* product of words, and satisfies the laws of an associative algebra.       *)
EXTENDS Tensors, FiniteSets, TLC

CONSTANTS Cases          \* set of <<n, p, dmax, largest number of non-zero coefficients>>

Dim(n, d) == StartN(n, d + 1)
(* tensors with at most k non-zero coefficients, 1 or 2 (2 = -1 mod 3) *)
RECURSIVE Sparse(_, _, _)
Sparse(m, d, k) == IF k = 0 THEN {[i \in 1..Dim(m, d) |-> 0]}
                   ELSE {[a EXCEPT ![i] = e] : a \in Sparse(m, d, k - 1), i \in 1..Dim(m, d), e \in 0..2}

VARIABLES c, x, y, z
vars == <<c, x, y, z>>
(* the operands are chosen one after the other *)
Init == /\ c \in Cases
        /\ x \in Sparse(c[1], c[3], c[4])
        /\ y = <<>> /\ z = <<>>
Choose == /\ y = <<>>
          /\ y' \in Sparse(c[1], c[3], c[4])
          /\ z' \in Sparse(c[1], c[3], c[4])
          /\ UNCHANGED <<c, x>>
Spec == Init /\ [][Choose]_vars

n == c[1]
p == c[2]
D == c[3]
Mul(a, b) == VMul(n, p, a, b, D)
Bra(a, b) == VComm(n, p, a, b, D)

(* the definition, word by word *)
RECURSIVE SumSplits(_, _, _, _)
SumSplits(a, b, w, j) ==
    IF j > Len(w) THEN 0
    ELSE SAdd(p, SMul(p, At(a, IndexN(n, SubSeq(w, 1, j))), At(b, IndexN(n, SubSeq(w, j + 1, Len(w))))),
              SumSplits(a, b, w, j + 1))
Definition == LET m == Mul(x, y) IN
              /\ \A w \in AllWords(n, D) : At(m, IndexN(n, w)) = SumSplits(x, y, w, 0)
              /\ \A i \in Dim(n, D)..(Len(m) - 1) : At(m, i) = 0
Associative == Same(Mul(Mul(x, y), z), Mul(x, Mul(y, z)))
Bilinear == /\ Same(Mul(VAdd(p, x, y), z), VAdd(p, Mul(x, z), Mul(y, z)))
            /\ Same(Mul(x, VAdd(p, y, z)), VAdd(p, Mul(x, y), Mul(x, z)))
            /\ Same(Mul(VScale(p, x, 2), y), VScale(p, Mul(x, y), 2))
            /\ Same(Mul(x, VScale(p, y, 2)), VScale(p, Mul(x, y), 2))
Unit == Same(Mul(<<1>>, x), x) /\ Same(Mul(x, <<1>>), x)
Antisymmetric == Same(Bra(x, y), VNeg(p, Bra(y, x)))
Jacobi == Same(VAdd(p, VAdd(p, Bra(x, Bra(y, z)), Bra(y, Bra(z, x))), Bra(z, Bra(x, y))), <<>>)
Truncation == \A d \in 0..D : Same(VMul(n, p, x, y, d), VTrunc(n, Mul(x, y), d))
=============================================================================
