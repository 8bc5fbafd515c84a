------------------------------- MODULE Scalars -------------------------------
(* The coefficient field: integers modulo a prime p (p*p < 2^31).  The       *)
(* driver uses the field itself, or floating point numbers, which are logged *)
(* by their image under the ring homomorphism from the dyadic rationals to   *)
(* the field (exact as long as no operation rounds).                         *)
EXTENDS Integers

SAdd(p, a, b) == (a + b) % p
SSub(p, a, b) == (a - b) % p
SNeg(p, a)    == (0 - a) % p
SMul(p, a, b) == (a * b) % p

RECURSIVE SPow(_, _, _)
SPow(p, a, k) == IF k = 0 THEN 1
                 ELSE LET h == SPow(p, a, k \div 2)
                          hh == (h * h) % p
                      IN IF k % 2 = 0 THEN hh ELSE (hh * a) % p
SInv(p, a)    == SPow(p, a, p - 2)
SDiv(p, a, b) == SMul(p, a, SInv(p, b))

IsScalar(p, a) == a \in 0..(p - 1)
=============================================================================
