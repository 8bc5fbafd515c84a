---------------------------- MODULE SparseMachine ----------------------------
(* Sparse vectors: register r stores val[r], a sequence of <<key, scalar>>    *)
(* with increasing keys.  Keys are integers.  What matters is the coefficient *)
(* of every key; whether a zero is stored is left open.                       *)
EXTENDS Scalars, Sequences, FiniteSets, TLC

Keys(v) == {v[i][1] : i \in 1..Len(v)}
Co(v, k) == LET h == {i \in 1..Len(v) : v[i][1] = k}
            IN IF h = {} THEN 0 ELSE v[CHOOSE i \in h : TRUE][2]

WellFormed(p, v) == /\ \A i \in 1..(Len(v) - 1) : v[i][1] < v[i + 1][1]
                    /\ \A i \in 1..Len(v) : IsScalar(p, v[i][2])

Differ(u, v) == u # v /\ \E k \in Keys(u) \cup Keys(v) : Co(u, k) # Co(v, k)

(* coefficient functions: a function on the keys that may be non-zero *)
Fn(v) == [k \in Keys(v) |-> Co(v, k)]
Val(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
FAdd(p, f, g) == [k \in DOMAIN f \cup DOMAIN g |-> SAdd(p, Val(f, k), Val(g, k))]
FSub(p, f, g) == [k \in DOMAIN f \cup DOMAIN g |-> SSub(p, Val(f, k), Val(g, k))]
FScale(p, f, x) == [k \in DOMAIN f |-> SMul(p, f[k], x)]
FNeg(p, f) == [k \in DOMAIN f |-> SNeg(p, f[k])]
FPut(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Empty == [k \in {} |-> 0]

RECURSIVE FSum(_, _, _, _)
FSum(p, ps, i, f) == IF i > Len(ps) THEN f
                     ELSE FSum(p, ps, i + 1, FPut(f, ps[i][1][1], SAdd(p, Val(f, ps[i][1][1]), ps[i][2])))
RECURSIVE FPuts(_, _, _)
FPuts(ps, i, f) == IF i > Len(ps) THEN f ELSE FPuts(ps, i + 1, FPut(f, ps[i][1][1], ps[i][2]))

Expect(s, e) ==
    LET p == s.p
        me == IF "r" \in DOMAIN e THEN Fn(s.val[e.r]) ELSE Empty
        a == IF "a" \in DOMAIN e THEN Fn(s.val[e.a]) ELSE Empty
        b == IF "b" \in DOMAIN e THEN Fn(s.val[e.b]) ELSE Empty
        k == e.k[1]
    IN
    CASE e.op = "new"     -> Empty
      [] e.op = "fromkey" -> FPut(Empty, k, 1)
      [] e.op = "fromks"  -> FPut(Empty, k, e.s)
      [] e.op = "fromit"  -> FSum(p, e.ps, 1, Empty)
      [] e.op \in {"clone", "own", "rewrap"} -> a
      [] e.op = "neg"     -> FNeg(p, a)
      [] e.op = "add"     -> FAdd(p, a, b)
      [] e.op = "sub"     -> FSub(p, a, b)
      [] e.op \in {"smr", "sml"} -> FScale(p, a, e.s)
      [] e.op \in {"sdr", "sdl"} -> FScale(p, a, SInv(p, e.q))
      [] e.op = "negi"    -> FNeg(p, me)
      [] e.op = "addi"    -> FAdd(p, me, a)
      [] e.op = "subi"    -> FSub(p, me, a)
      [] e.op \in {"smli", "smri"} -> FScale(p, me, e.s)
      [] e.op \in {"sdri", "sdli"} -> FScale(p, me, SInv(p, e.q))
      [] e.op \in {"asrm", "aslm"} -> FAdd(p, me, FScale(p, a, e.s))
      [] e.op \in {"ssrm", "sslm"} -> FSub(p, me, FScale(p, a, e.s))
      [] e.op \in {"asrd", "asld"} -> FAdd(p, me, FScale(p, a, SInv(p, e.q)))
      [] e.op \in {"ssrd", "ssld"} -> FSub(p, me, FScale(p, a, SInv(p, e.q)))
      [] e.op = "kam"     -> FPut(me, k, SAdd(p, Val(me, k), e.s))
      [] e.op = "ksm"     -> FPut(me, k, SSub(p, Val(me, k), e.s))
      [] e.op = "kad"     -> FPut(me, k, SAdd(p, Val(me, k), SInv(p, e.q)))
      [] e.op = "ksd"     -> FPut(me, k, SSub(p, Val(me, k), SInv(p, e.q)))
      [] e.op = "getmut"  -> IF e.res = <<>> THEN me ELSE FPut(me, k, e.s)
      [] e.op = "ins1"    -> FPut(me, k, e.s)
      [] e.op = "ins"     -> FPuts(e.ps, 1, me)
      [] e.op = "erase"   -> FPut(me, k, 0)
      [] e.op = "clear"   -> Empty

Meets(f, v) == \A k \in DOMAIN f \cup Keys(v) : Co(v, k) = Val(f, k)

ResultOk(s, e) ==
    LET a == IF "a" \in DOMAIN e THEN s.val[e.a] ELSE <<>>
        b == IF "b" \in DOMAIN e THEN s.val[e.b] ELSE <<>>
        Lookup(v, k) == e.res = <<Co(v, k)>> \/ (e.res = <<>> /\ Co(v, k) = 0)
    IN
    CASE e.op = "get"    -> Lookup(a, e.k[1])
      [] e.op = "getmut" -> Lookup(s.val[e.r], e.k[1])
      [] e.op = "eq"     -> \/ e.res = <<1>> /\ ~Differ(a, b)
                            \/ e.res = <<0>> /\ a # b
      [] e.op = "iter"   -> e.res = <<a>>
      [] OTHER           -> TRUE

Targets(e) == IF e.op = "swap" THEN {e.r, e.a}
              ELSE IF "r" \in DOMAIN e THEN {e.r} ELSE {}

ValuesOk(s, e, val2) ==
    IF e.op = "swap" THEN val2[e.r] = s.val[e.a] /\ val2[e.a] = s.val[e.r]
    ELSE "r" \in DOMAIN e => Meets(Expect(s, e), val2[e.r])

StateOf(p, nr) == [p |-> p, val |-> [r \in 1..nr |-> <<>>]]

(* for exploring the specification on its own: zeros are not stored *)
RECURSIVE Sorted(_, _)
Sorted(f, ks) == IF ks = {} THEN <<>>
                 ELSE LET k == CHOOSE x \in ks : \A y \in ks : x <= y
                      IN <<<<k, f[k]>>>> \o Sorted(f, ks \ {k})
Store(f) == Sorted(f, {k \in DOMAIN f : f[k] # 0})
Canon(s, e) == IF e.op = "swap" THEN [s EXCEPT !.val[e.r] = s.val[e.a], !.val[e.a] = s.val[e.r]]
               ELSE IF "r" \in DOMAIN e THEN [s EXCEPT !.val[e.r] = Store(Expect(s, e))]
               ELSE s
=============================================================================
