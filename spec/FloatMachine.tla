----------------------------- MODULE FloatMachine -----------------------------
(* Binary floating point numbers as mathematical values: <<sign, mantissa    *)
(* (BigNat), exponent>> means sign * mantissa * 2^exponent.  Rounded(f, x,r): *)
(* r is the correctly rounded (to nearest, ties to even) value of x in the    *)
(* format f = [p: bits, emin, emax: least and largest exponent of a mantissa]. *)
(* Infinities have sign 7 or -7, what is not a number sign 9.                 *)
(* Exact values are <<sign, A, B, t>>, meaning sign * (A / B) * 2^t.          *)
EXTENDS BigNat, TLC

Format(bits) == IF bits = 53 THEN [p |-> 53, emin |-> 0 - 1074, emax |-> 971]
                ELSE [p |-> 24, emin |-> 0 - 149, emax |-> 104]

RECURSIVE Shl(_, _)
Shl(a, k) == IF a = <<>> \/ k = 0 THEN a
             ELSE IF k >= 20 THEN Shl(BMulAdd(a, 1048576, 0), k - 20)
             ELSE BMulAdd(a, 2^k, 0)

(* compare A/B * 2^t with C * 2^u *)
CmpScaled(x, c, u) ==
    IF x[4] >= u THEN BCmp(Shl(x[2], x[4] - u), BMul(c, x[3]))
    ELSE BCmp(x[2], Shl(BMul(c, x[3]), u - x[4]))

IsZero(v) == v[1] = 0
Finite(v) == v[1] \in {-1, 0, 1}

Of(v) == <<v[1], v[2], <<1>>, v[3]>>
ENeg(x) == <<0 - x[1], x[2], x[3], x[4]>>
EMul(a, b) == IF IsZero(a) \/ IsZero(b) THEN <<0, <<>>, <<1>>, 0>>
              ELSE <<a[1] * b[1], BMul(a[2], b[2]), <<1>>, a[3] + b[3]>>
EDiv(a, b) == IF IsZero(a) THEN <<0, <<>>, <<1>>, 0>>
              ELSE <<a[1] * b[1], a[2], b[2], a[3] - b[3]>>
EAdd(a, b) ==
    IF IsZero(a) THEN Of(b) ELSE IF IsZero(b) THEN Of(a)
    ELSE LET t == IF a[3] <= b[3] THEN a[3] ELSE b[3]
             x == Shl(a[2], a[3] - t)
             y == Shl(b[2], b[3] - t)
         IN IF a[1] = b[1] THEN <<a[1], BAdd(x, y), <<1>>, t>>
            ELSE LET c == BCmp(x, y) IN
                 IF c = 0 THEN <<0, <<>>, <<1>>, 0>>
                 ELSE IF c > 0 THEN <<a[1], BSub(x, y), <<1>>, t>>
                 ELSE <<b[1], BSub(y, x), <<1>>, t>>
ESub(a, b) == EAdd(a, <<0 - b[1], b[2], b[3]>>)

IsEven(m) == m = <<>> \/ m[1] % 2 = 0
Infinite(v) == v[1] \in {-7, 7}

(* r is the value of the format nearest to x, of two equally near ones the   *)
(* one with an even mantissa.  Below the normal range mantissas are shorter, *)
(* down to zero; beyond the largest value by half a unit or more is infinity.*)
Nearest(f, x, r) ==
    IF x[1] = 0 THEN IsZero(r)
    ELSE IF IsZero(r) THEN CmpScaled(x, <<1>>, f.emin - 1) <= 0
    ELSE IF Infinite(r)
    THEN /\ r[1] = 7 * x[1]
         /\ CmpScaled(x, BSub(BPow2(f.p + 1), <<1>>), f.emax - 1) >= 0
    ELSE /\ r[1] = x[1]
         /\ r[3] >= f.emin /\ r[3] <= f.emax
         /\ r[3] > f.emin => BCmp(r[2], BPow2(f.p - 1)) >= 0
         /\ r[2] # <<>> /\ BCmp(r[2], BPow2(f.p)) < 0
         /\ LET m == r[2]
                low == IF m = BPow2(f.p - 1) /\ r[3] > f.emin
                       THEN CmpScaled(x, BSub(BMulAdd(m, 4, 0), <<1>>), r[3] - 2)
                       ELSE CmpScaled(x, BSub(BMulAdd(m, 2, 0), <<1>>), r[3] - 1)
                high == CmpScaled(x, BMulAdd(m, 2, 1), r[3] - 1)
            IN /\ low > 0 \/ (low = 0 /\ IsEven(m))
               /\ high < 0 \/ (high = 0 /\ IsEven(m))

Rounded(f, x, r) == Nearest(f, x, r)

One == <<1, <<1>>, 0>>
AllSame(res, k) == \A i \in 1..k : res[i] = res[1]

(* operand afterwards: unchanged *)
FloatOk(f, e) ==
    LET r == e.res
        Both(x) == /\ Len(r) = 5 /\ Rounded(f, x, r[1]) /\ AllSame(r, 3)
                   /\ r[4] = e.a /\ r[5] = e.b
    IN
    CASE e.op = "fadd"   -> Both(EAdd(e.a, e.b))
      [] e.op = "fsub"   -> Both(ESub(e.a, e.b))
      [] e.op = "fmul"   -> Both(EMul(e.a, e.b))
      [] e.op = "fdiv"   -> Both(EDiv(e.a, e.b))
      [] e.op = "frat"   -> Len(r) = 1 /\ Rounded(f, EDiv(e.a, e.b), r[1])
      [] e.op = "fneg"   -> Len(r) = 1 /\ r[1] = <<0 - e.a[1], e.a[2], e.a[3]>>
      [] e.op = "finv"   -> Len(r) = 2 /\ Rounded(f, EDiv(One, e.a), r[1]) /\ r[2] = r[1]
      [] e.op = "fdeg"   -> Len(r) = 1 /\ Rounded(f, IF e.i = <<>> THEN <<0, <<>>, <<1>>, 0>> ELSE <<1, e.i, <<1>>, 0>>, r[1])
      [] e.op = "fconst" -> /\ Len(r) = 3 /\ IsZero(r[1])
                            /\ Rounded(f, Of(One), r[2]) /\ Rounded(f, ENeg(Of(One)), r[3])
(* Vectors: the results of all forms of an operation on a and b (padded to    *)
(* the same length) and q.  A scaled vector may be rounded (to t) before it   *)
(* is added, or only the sum.                                                 *)
NoVec == {"fconst", "fneg", "finv", "fdeg", "fadd", "fsub", "fmul", "fdiv", "frat"}
Times(s, v) == <<s * v[1], v[2], v[3]>>
Triple(x) == <<x[1], x[2], x[4]>>                 \* of an exact value with denominator 1

AddScaled(f, s, a, b, q, t, r) ==
    \/ Nearest(f, EMul(b, q), t) /\ Nearest(f, EAdd(a, Times(s, t)), r)
    \/ Nearest(f, EAdd(a, Times(s, Triple(EMul(b, q)))), r)
AddQuotient(f, s, a, b, q, t, r) ==
    \/ Nearest(f, EDiv(b, q), t) /\ Nearest(f, EAdd(a, Times(s, t)), r)
    \/ LET m == EAdd(Triple(EMul(a, q)), Times(s, b))
       IN Nearest(f, IF m[1] = 0 THEN m ELSE <<m[1] * q[1], m[2], q[2], m[4] - q[3]>>, r)

CoefficientOk(f, e, i, r) ==
    LET a == e.a[i]
        b == e.b[i]
        q == e.q
        here == i = e.i
    IN
    CASE e.op = "rneg" -> r = Times(-1, a)
      [] e.op = "radd" -> Nearest(f, EAdd(a, b), r)
      [] e.op = "rsub" -> Nearest(f, ESub(a, b), r)
      [] e.op = "rsm"  -> Nearest(f, EMul(a, q), r)
      [] e.op = "rsd"  -> Nearest(f, EDiv(a, q), r)
      [] e.op = "ram"  -> AddScaled(f, 1, a, b, q, e.t[i], r)
      [] e.op = "rsbm" -> AddScaled(f, -1, a, b, q, e.t[i], r)
      [] e.op = "rad"  -> AddQuotient(f, 1, a, b, q, e.t[i], r)
      [] e.op = "rsbd" -> AddQuotient(f, -1, a, b, q, e.t[i], r)
      [] e.op = "rkam" -> IF here THEN Nearest(f, EAdd(a, q), r) ELSE r = a
      [] e.op = "rksm" -> IF here THEN Nearest(f, ESub(a, q), r) ELSE r = a
      [] e.op = "rkad" -> IF here THEN AddQuotient(f, 1, a, One, q, e.t[1], r) ELSE r = a
      [] e.op = "rksd" -> IF here THEN AddQuotient(f, -1, a, One, q, e.t[1], r) ELSE r = a

VectorOk(f, e) ==
    LET n == Len(e.a) IN
    /\ \A k \in 1..Len(e.res) : /\ Len(e.res[k]) >= n
                               /\ SubSeq(e.res[k], 1, n) = SubSeq(e.res[1], 1, n)
                               /\ \A i \in (n + 1)..Len(e.res[k]) : IsZero(e.res[k][i])
    /\ \A i \in 1..n : CoefficientOk(f, e, i, e.res[1][i])
=============================================================================
