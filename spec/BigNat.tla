------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond TLC's 32-bit integers: little-endian limbs, base   *)
(* 1000, no leading zero limb; <<>> is zero.  Native factors and divisors    *)
(* below 2^21 take the short way, on which every intermediate value stays    *)
(* below 2^31.                                                               *)
EXTENDS Integers, Sequences

LOCAL BASE == 1000

RECURSIVE BNorm(_)
BNorm(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BOf(_)
BOf(k) == IF k = 0 THEN <<>> ELSE <<k % BASE>> \o BOf(k \div BASE)

BLimb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

(* a * k + c *)
RECURSIVE BMulAddFrom(_, _, _, _)
BMulAddFrom(a, k, c, i) ==
    IF i > Len(a) THEN BOf(c)
    ELSE LET t == a[i] * k + c
         IN  <<t % BASE>> \o BMulAddFrom(a, k, t \div BASE, i + 1)

Small(k) == k < 2097152

RECURSIVE BAddFrom(_, _, _, _)
BAddFrom(a, b, c, i) ==
    IF i > Len(a) /\ i > Len(b) THEN BOf(c)
    ELSE LET t == BLimb(a, i) + BLimb(b, i) + c
         IN  <<t % BASE>> \o BAddFrom(a, b, t \div BASE, i + 1)

BAdd(a, b) == BAddFrom(a, b, 0, 1)

RECURSIVE BSubFrom(_, _, _, _)
BSubFrom(a, b, borrow, i) ==
    IF i > Len(a) THEN <<>>
    ELSE LET t == BLimb(a, i) - BLimb(b, i) - borrow
         IN  IF t < 0 THEN <<t + BASE>> \o BSubFrom(a, b, 1, i + 1)
                      ELSE <<t>> \o BSubFrom(a, b, 0, i + 1)

(* a - b for a >= b *)
BSub(a, b) == BNorm(BSubFrom(a, b, 0, 1))

RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(a, b, i) ==
    IF i = 0 THEN 0
    ELSE IF a[i] < b[i] THEN -1
    ELSE IF a[i] > b[i] THEN 1
    ELSE BCmpFrom(a, b, i - 1)

(* -1, 0 or 1 *)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE BCmpFrom(a, b, Len(a))

RECURSIVE BMulFrom(_, _, _)
BMulFrom(a, b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE BAdd(BMulAddFrom(a, b[i], 0, 1),
              LET r == BMulFrom(a, b, i + 1) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r)

BMul(a, b) == BNorm(BMulFrom(a, b, 1))

BMulAdd(a, k, c) == IF Small(k) /\ Small(c) THEN BNorm(BMulAddFrom(a, k, c, 1))
                    ELSE BNorm(BAdd(BMul(a, BOf(k)), BOf(c)))

(* quotient and remainder by a native number *)
RECURSIVE BDivFrom(_, _, _, _, _)
BDivFrom(a, k, r, i, q) ==
    IF i = 0 THEN [q |-> BNorm(q), r |-> r]
    ELSE LET t == r * BASE + a[i]
         IN  BDivFrom(a, k, t % k, i - 1, <<t \div k>> \o q)

RECURSIVE BToInt(_, _)
BToInt(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + BASE * BToInt(a, i + 1)

(* the largest g in lo..hi with k*g <= t *)
RECURSIVE BDigit(_, _, _, _)
BDigit(k, t, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF BCmp(BMul(k, BOf(m)), t) <= 0 THEN BDigit(k, t, m, hi) ELSE BDigit(k, t, lo, m - 1)

RECURSIVE BDivWide(_, _, _, _, _)
BDivWide(a, k, r, i, q) ==
    IF i = 0 THEN [q |-> BNorm(q), r |-> BToInt(r, 1)]
    ELSE LET t == BNorm(<<a[i]>> \o r)
             g == BDigit(k, t, 0, BASE - 1)
         IN  BDivWide(a, k, BSub(t, BMul(k, BOf(g))), i - 1, <<g>> \o q)

BDivMod(a, k) == IF Small(k) THEN BDivFrom(a, k, 0, Len(a), <<>>)
                 ELSE BDivWide(a, BOf(k), <<>>, Len(a), <<>>)

RECURSIVE BPow2(_)
BPow2(k) == IF k = 0 THEN <<1>>
            ELSE IF k >= 20 THEN BMulAdd(BPow2(k - 20), 1048576, 0)
            ELSE BMulAdd(BPow2(k - 1), 2, 0)

RECURSIVE BPow(_, _)
BPow(n, k) == IF k = 0 THEN <<1>> ELSE BMulAdd(BPow(n, k - 1), n, 0)

BIsNat(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(BASE - 1)
             /\ (a = <<>> \/ a[Len(a)] # 0)
=============================================================================
