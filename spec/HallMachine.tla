----------------------------- MODULE HallMachine -----------------------------
(* Hall set size tables, the process-wide cache of Hall sets, Hall keys.     *)
EXTENDS HallSizes, Words, TLC


(* ---- size table: s.len entries, for the degrees 0..s.len-1 ---- *)
TableLen(s, e) == CASE e.op = "tnew" -> e.d
                    [] e.op = "grow" -> IF e.d + 1 > s.len THEN e.d + 1 ELSE s.len
                    [] OTHER -> s.len

TableOk(s, e) ==
    CASE e.op = "tnew" -> e.res = <<>>
      [] e.op = "grow" -> e.res = <<1>>
      [] e.op = "get"  -> e.res = (IF e.d < s.len THEN <<1, s.cum[e.d + 1]>> ELSE <<0, <<>>>>)
      [] e.op = "find" -> \/ e.i = <<>>
                          \/ LET d == FindFrom(s.cum, s.len, e.i, 0)
                             IN e.res = (IF d >= 0 THEN <<1, BOf(d)>> ELSE <<0, <<>>>>)

(* ---- the cache: s.ids is a set of <<width, identity>> ---- *)
Reported(e) == CASE e.op = "hget"  -> {<<e.n, e.res[i]>> : i \in 1..Len(e.res)}
                 [] e.op = "race"  -> {<<e.n, e.res[i]>> : i \in 1..Len(e.res)}
                 [] e.op = "storm" -> {<<e.n, e.res[i][1]>> : i \in 1..Len(e.res)}
                 [] e.op = "mixed" -> {<<e.res[i][1], e.res[i][2]>> : i \in 1..Len(e.res)}
                 [] OTHER -> {}

OneSetPerWidth(ids) == \A x, y \in ids : x[1] = y[1] <=> x[2] = y[2]


CumAt(n, d) == Cumulative(n, d)[d + 1]

(* the number of degrees a Hall set knows from the start *)
FirstSize(n) == CASE n = 2 -> 30
                  [] n \in 3..5 -> 20
                  [] n \in 6..10 -> 8
                  [] n \in 11..20 -> 3
                  [] OTHER -> 2

QueryOk(e) ==
    CASE e.op = "isletter" -> e.res = <<1, IF e.i # <<>> /\ BCmp(e.i, BOf(e.n)) <= 0 THEN 1 ELSE 0>>
      [] e.op = "range" /\ e.d > 170 -> \/ e.res = <<0, <<>>, <<>>>>      \* more elements than can be counted
                                        \/ e.n = 1 /\ e.res = <<1, <<1>>, <<1>>>>
      [] e.op = "range"    -> \/ e.res = <<1, CumAt(e.n, e.d), CumAt(e.n, e.d + 1)>>
                              \/ e.d + 1 >= FirstSize(e.n) /\ e.res = <<0, <<>>, <<>>>>
      [] e.op = "details"  -> e.i = <<>> \/ e.res = <<0, 0, 0>>
      [] e.op = "hget"     -> Len(e.res) = 1
      [] e.op = "race"     -> Len(e.res) = e.t * e.k
      [] e.op = "storm"    -> /\ Len(e.res) = e.t * e.k
                              /\ \A i \in 1..Len(e.res) :
                                    SubSeq(e.res[i], 2, 7) = <<0, 1, 1, 0, CumAt(e.n, 0), CumAt(e.n, 1)>>
      [] e.op = "mixed"    -> Len(e.res) = 4 * Len(e.ws)

(* ---- Hall keys: key number, left parent, right parent, degree ---- *)
S_HallKey == <<72,97,108,108,75,101,121,40,107,101,121,61>>               \* HallKey(key=
S_lparent == <<44,32,108,112,97,114,101,110,116,61>>                      \* , lparent=
S_rparent == <<44,32,114,112,97,114,101,110,116,61>>                      \* , rparent=
S_size    == <<44,32,115,105,122,101,61>>                                 \* , size=

KeyDebug(k, l, r, z) == S_HallKey \o Digits(k) \o S_lparent \o Digits(l) \o S_rparent \o Digits(r)
                        \o S_size \o Digits(z) \o <<41>>
KeyShow(k, l, r, z) == IF z = 1 THEN Digits(k)
                       ELSE <<91>> \o Digits(l) \o <<44, 32>> \o Digits(r) \o <<93>>

(* index: only defined for a key with a number *)
KeyOk(k, l, r, z, res) ==
    /\ Len(res) = 8
    /\ res[1] = l /\ res[2] = r /\ res[3] = z
    /\ res[4] = (IF z = 1 THEN 1 ELSE 0)
    /\ res[5] = (IF k = 0 /\ l = 0 /\ r = 0 /\ z = 0 THEN 0 ELSE 1)
    /\ (k > 0 => res[6] = BOf(k - 1))
    /\ res[7] = KeyDebug(k, l, r, z)
    /\ res[8] = KeyShow(k, l, r, z)

HallKeyOk(e) ==
    CASE e.op = "hnew"    -> KeyOk(0, 0, 0, 0, e.res)
      [] e.op = "hletter" -> KeyOk(e.l, 0, e.l, 1, e.res)
      [] e.op = "hparts"  -> KeyOk(e.key, e.lp, e.rp, e.sz, e.res)

TableOps == {"tnew", "grow", "get", "find"}
CacheOps == {"hget", "race", "mixed", "storm", "isletter", "range", "details"}
KeyOps   == {"hnew", "hletter", "hparts"}
=============================================================================
