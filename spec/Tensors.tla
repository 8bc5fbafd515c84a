------------------------------- MODULE Tensors -------------------------------
(* Vectors as coefficient sequences: element i+1 is the coefficient of the   *)
(* basis element with index i; everything beyond the end is zero.            *)
EXTENDS Scalars, Words

(* the same sequence, evaluated (TLC evaluates function constructors lazily) *)
Now(a) == a \o <<>>

At(a, i) == IF i < Len(a) THEN a[i + 1] ELSE 0
MaxOf(x, y) == IF x >= y THEN x ELSE y
MinOf(x, y) == IF x <= y THEN x ELSE y

(* the same vector, whatever the stored sizes *)
Same(a, b) == \A i \in 0..(MaxOf(Len(a), Len(b)) - 1) : At(a, i) = At(b, i)

RECURSIVE TrimTo(_, _)
TrimTo(a, k) == IF k = 0 THEN <<>> ELSE IF a[k] # 0 THEN SubSeq(a, 1, k) ELSE TrimTo(a, k - 1)
Trim(a) == TrimTo(a, Len(a))

Zeros(k) == Now([i \in 1..k |-> 0])
VNeg(p, a) == Now([i \in 1..Len(a) |-> SNeg(p, a[i])])
VAdd(p, a, b) == Now([i \in 1..MaxOf(Len(a), Len(b)) |-> SAdd(p, At(a, i - 1), At(b, i - 1))])
VSub(p, a, b) == Now([i \in 1..MaxOf(Len(a), Len(b)) |-> SSub(p, At(a, i - 1), At(b, i - 1))])
VScale(p, a, x) == Now([i \in 1..Len(a) |-> SMul(p, a[i], x)])
VUnit(i, x) == Now([j \in 1..(i + 1) |-> IF j = i + 1 THEN x ELSE 0])
VPut(a, i, x) == Now([j \in 1..MaxOf(Len(a), i + 1) |-> IF j = i + 1 THEN x ELSE At(a, j - 1)])

RECURSIVE PowN(_, _)
PowN(n, k) == IF k = 0 THEN 1 ELSE n * PowN(n, k - 1)

(* Degree of the highest non-zero coefficient (0 for the zero vector) *)
VDeg(n, a) == LET t == Trim(a) IN IF t = <<>> THEN 0 ELSE DegOf(n, Len(t) - 1)

(* Coefficient of the word number x of degree d in the product: the sum over *)
(* all splittings of the word into a prefix and a suffix of f applied to the *)
(* product of their coefficients.                                            *)
Apply(p, f, x) == CASE f = "id"   -> x
                    [] f = "neg"  -> SNeg(p, x)
                    [] f = "sq"   -> SMul(p, x, x)
                    [] f = "twice"-> SAdd(p, x, x)
                    [] f = "inc"  -> SAdd(p, x, 1)
Shifts(f) == f \in {"inc"}       \* functions that do not map zero to zero

RECURSIVE SplitSum(_, _, _, _, _, _, _, _, _, _)
SplitSum(p, f, a, b, st, pw, d, x, j, acc) ==
    IF j > d THEN acc
    ELSE LET l == At(a, st[j + 1] + (x \div pw[d - j + 1]))
             r == At(b, st[d - j + 1] + (x % pw[d - j + 1]))
         IN  SplitSum(p, f, a, b, st, pw, d, x, j + 1,
                      IF l = 0 \/ r = 0 THEN acc ELSE SAdd(p, acc, Apply(p, f, SMul(p, l, r))))

(* product of a and b over n letters, words longer than dmax dropped *)
VMulF(n, p, f, a, b, dmax) ==
    LET ta == Trim(a)
        tb == Trim(b)
    IN IF ta = <<>> \/ tb = <<>> THEN <<>>
       ELSE LET d == MinOf(dmax, VDeg(n, ta) + VDeg(n, tb))
                st == Now([k \in 1..(d + 2) |-> StartN(n, k - 1)])
                pw == Now([k \in 1..(d + 1) |-> PowN(n, k - 1)])
                RECURSIVE Join(_)
                Join(k) == IF k > d THEN <<>>
                           ELSE [x \in 1..pw[k + 1] |-> SplitSum(p, f, ta, tb, st, pw, k, x - 1, 0, 0)] \o Join(k + 1)
            IN  Join(0)

(* the same for any function: it is applied to the product of every pair of  *)
(* stored coefficients, zero or not                                          *)
RECURSIVE SplitAll(_, _, _, _, _, _, _, _, _, _)
SplitAll(p, f, a, b, st, pw, d, x, j, acc) ==
    IF j > d THEN acc
    ELSE LET i == st[j + 1] + (x \div pw[d - j + 1])
             k == st[d - j + 1] + (x % pw[d - j + 1])
         IN  SplitAll(p, f, a, b, st, pw, d, x, j + 1,
                      IF i >= Len(a) \/ k >= Len(b) THEN acc ELSE SAdd(p, acc, Apply(p, f, SMul(p, At(a, i), At(b, k)))))
VMulAll(n, p, f, a, b, dmax) ==
    IF a = <<>> \/ b = <<>> THEN <<>>
    ELSE LET d == MinOf(dmax, DegOf(n, Len(a) - 1) + DegOf(n, Len(b) - 1))
             st == Now([k \in 1..(d + 2) |-> StartN(n, k - 1)])
             pw == Now([k \in 1..(d + 1) |-> PowN(n, k - 1)])
             RECURSIVE Join(_)
             Join(k) == IF k > d THEN <<>>
                        ELSE [x \in 1..pw[k + 1] |-> SplitAll(p, f, a, b, st, pw, k, x - 1, 0, 0)] \o Join(k + 1)
         IN  Join(0)
(* whole degrees are stored *)
Whole(n, a) == a # <<>> /\ Len(a) = StartN(n, DegOf(n, Len(a) - 1) + 1)

VMul(n, p, a, b, dmax) == VMulF(n, p, "id", a, b, dmax)
VComm(n, p, a, b, dmax) == VSub(p, VMul(n, p, a, b, dmax), VMul(n, p, b, a, dmax))

VTrunc(n, a, dmax) == SubSeq(a, 1, MinOf(Len(a), StartN(n, dmax + 1)))
NoConst(a) == IF a = <<>> THEN a ELSE Now([a EXCEPT ![1] = 0])

(* sum over k = 0..dmax of x^k / k! (x without constant term) *)
RECURSIVE ExpFrom(_, _, _, _, _, _, _)
ExpFrom(n, p, x, dmax, k, term, acc) ==
    IF k > dmax THEN acc
    ELSE LET t == VScale(p, VMul(n, p, term, x, dmax), SInv(p, k))
         IN  ExpFrom(n, p, x, dmax, k + 1, t, VAdd(p, acc, t))
VExp(n, p, x, dmax) == ExpFrom(n, p, x, dmax, 1, <<1>>, <<1>>)

(* sum over k = 1..dmax of (-1)^(k+1) y^k / k with y = x without constant *)
RECURSIVE LogFrom(_, _, _, _, _, _, _)
LogFrom(n, p, y, dmax, k, pow, acc) ==
    IF k > dmax THEN acc
    ELSE LET t == VMul(n, p, pow, y, dmax)
             u == VScale(p, t, SInv(p, k))
         IN  LogFrom(n, p, y, dmax, k + 1, t, IF k % 2 = 1 THEN VAdd(p, acc, u) ELSE VSub(p, acc, u))
VLog(n, p, x, dmax) == LogFrom(n, p, NoConst(x), dmax, 1, <<1>>, <<>>)

VFmexp(n, p, a, x, dmax) == VMul(n, p, a, VExp(n, p, NoConst(x), dmax), dmax)
=============================================================================
