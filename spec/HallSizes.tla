------------------------------ MODULE HallSizes ------------------------------
(* Sizes of a Hall basis: the number of elements of degree k over n letters  *)
(* is the number L(k) of Lyndon words of length k, determined by             *)
(* sum of d*L(d) over the divisors d of k  =  n^k  (every word is a power of *)
(* a rotation of exactly one Lyndon word).                                   *)
EXTENDS BigNat

(* sum of d*ls[d] over the proper divisors d >= from of k *)
RECURSIVE DivSum(_, _, _)
DivSum(ls, k, from) ==
    IF from >= k THEN <<>>
    ELSE IF k % from = 0 THEN BAdd(BMulAdd(ls[from], from, 0), DivSum(ls, k, from + 1))
    ELSE DivSum(ls, k, from + 1)

(* <<L(1), L(2), ..., L(top)>>, given n^(k-1) *)
RECURSIVE LyndonFrom(_, _, _, _)
LyndonFrom(n, top, ls, pow) ==
    IF Len(ls) = top THEN ls
    ELSE LET k == Len(ls) + 1
             pk == BMulAdd(pow, n, 0)
         IN  LyndonFrom(n, top, Append(ls, BDivMod(BSub(pk, DivSum(ls, k, 1)), k).q), pk)
LyndonCounts(n, top) == LyndonFrom(n, top, <<>>, <<1>>)

(* element d+1 is the number of elements of degrees 1..d *)
RECURSIVE CumFrom(_, _)
CumFrom(ls, acc) ==
    IF Len(acc) > Len(ls) THEN acc
    ELSE CumFrom(ls, Append(acc, BAdd(acc[Len(acc)], ls[Len(acc)])))
Cumulative(n, top) == CumFrom(LyndonCounts(n, top), <<<<>>>>)

(* the highest degree with n^degree below 2^63; of one letter, degree 170 *)
RECURSIVE TopFrom(_, _, _)
TopFrom(n, d, pow) ==
    LET q == BMulAdd(pow, n, 0)
    IN IF d = (IF n = 1 THEN 170 ELSE 62) \/ BCmp(q, BPow2(63)) >= 0 THEN d ELSE TopFrom(n, d + 1, q)
TopDegree(n) == TopFrom(n, 0, <<1>>)

(* smallest degree up to which there are at least key elements, -1 if none *)
RECURSIVE FindFrom(_, _, _, _)
FindFrom(cum, len, key, d) ==
    IF d >= len THEN -1
    ELSE IF BCmp(cum[d + 1], key) >= 0 THEN d
    ELSE FindFrom(cum, len, key, d + 1)
=============================================================================
