---------------------------- MODULE DenseMachine ----------------------------
(* Dense vectors and dense tensors as a client sees them: registers holding  *)
(* vectors (their stored coefficients), buffers lent to vectors, and one     *)
(* operation per public call.                                                *)
(*                                                                           *)
(* State s: n letters, p field, maxd (maximum degree of exp, log, fmexp),    *)
(* kind ("t": tensor basis; "i", "j", "c": integer bases whose dimensions    *)
(* are multiples of 4, 1, 64), val[r] coefficients of register r, buf[b] lent  *)
(* buffers, mode[b] ("ro" or "rw"), lend[r] the mutably lent buffer register *)
(* r writes through to (0: none).                                            *)
EXTENDS Tensors, TLC

Step(kind) == CASE kind = "i" -> 4 [] kind = "j" -> 1 [] kind = "c" -> 64
Idx(s, k) == IF s.kind = "t" THEN IndexN(s.n, k) ELSE MinOf(k[1], FarAway)
DimFor(s, i) == IF s.kind = "t" THEN StartN(s.n, DegOf(s.n, i) + 1)
                ELSE ((i \div Step(s.kind)) + 1) * Step(s.kind)
DegStored(s, a) == IF a = <<>> THEN 0 ELSE DegOf(s.n, Len(a) - 1)

(* the coefficients a list of pairs gives to the basis elements it names: the *)
(* sums, or the last ones                                                     *)
Named(s, ps) == Now([i \in 1..Len(ps) |-> Idx(s, ps[i][1])])
RECURSIVE Gather(_, _, _, _, _, _)
Gather(p, ix, ps, sum, i, m) ==
    IF i > Len(ps) THEN m
    ELSE Gather(p, ix, ps, sum, i + 1, [m EXCEPT ![ix[i]] = IF sum THEN SAdd(p, @, ps[i][2]) ELSE ps[i][2]])
WithPairs(s, ps, sum, acc) ==
    IF ps = <<>> THEN acc
    ELSE LET ix == Named(s, ps)
             at == {ix[i] : i \in 1..Len(ix)}
             m == Gather(s.p, ix, ps, sum, 1, [j \in at |-> IF sum THEN At(acc, j) ELSE 0])
             top == CHOOSE j \in at : \A k \in at : k <= j
         IN  Now([j \in 1..MaxOf(Len(acc), top + 1) |-> IF (j - 1) \in at THEN m[j - 1] ELSE At(acc, j - 1)])
SumPairs(s, ps) == WithPairs(s, ps, TRUE, <<>>)
PutPairs(s, ps, acc) == WithPairs(s, ps, FALSE, acc)
RECURSIVE MaxIdx(_, _, _, _)
MaxIdx(s, ps, i, m) == IF i > Len(ps) THEN m ELSE MaxIdx(s, ps, i + 1, MaxOf(m, Idx(s, ps[i][1])))

(* text of a vector: each stored coefficient followed by its word *)
RECURSIVE RenderPart(_, _, _, _)
RenderPart(n, a, i, j) == IF i > j THEN <<>>
                          ELSE IF i = j THEN Digits(a[i]) \o RenderWord(WordAtN(n, i - 1))
                          ELSE LET m == (i + j) \div 2 IN RenderPart(n, a, i, m) \o RenderPart(n, a, m + 1, j)
RenderVec(n, a) == RenderPart(n, a, 1, Len(a))

(* the same for floating point coefficients, multiples of 1/8 below 2000 in   *)
(* absolute value                                                            *)
RECURSIVE NoTrailingZero(_)
NoTrailingZero(ds) == IF ds[Len(ds)] = 48 THEN NoTrailingZero(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
RenderEighths(m) == Digits(m \div 8) \o
    (IF m % 8 = 0 THEN <<>>
     ELSE LET f == (m % 8) * 125
          IN  <<46>> \o NoTrailingZero(<<48 + (f \div 100), 48 + ((f \div 10) % 10), 48 + (f % 10)>>))
RenderFloat(p, x) == LET m == SMul(p, x, 8)
                     IN  IF m < 16000 THEN RenderEighths(m) ELSE <<45>> \o RenderEighths(p - m)
RECURSIVE RenderFloats(_, _, _, _)
RenderFloats(n, p, a, i) == IF i > Len(a) THEN <<>>
                            ELSE RenderFloat(p, a[i]) \o RenderWord(WordAtN(n, i - 1)) \o RenderFloats(n, p, a, i + 1)

Fill(a, lo, hi, x) == [i \in 1..Len(a) |-> IF i > lo /\ i <= hi THEN x ELSE a[i]]

Constructors == {"new", "fromkey", "fromks", "fromit", "fromvec", "fromdim", "fromcat", "borrow", "borrowmut"}
Copies    == {"clone", "own", "rewrap"}
Outs      == {"neg", "add", "sub", "smr", "sml", "sdr", "sdl"}
Ins       == {"negi", "addi", "subi", "smli", "smri", "sdri", "sdli",
              "asrm", "aslm", "ssrm", "sslm", "asrd", "asld", "ssrd", "ssld"}
KeyIns    == {"kam", "ksm", "kad", "ksd"}
Updates   == {"getmut", "ins1", "ins", "erase", "clear", "getmutslice", "resize"}
Reads     == {"get", "getslice", "getidx", "size", "degree", "eq", "fmt", "fmtf", "same"}
OutProds  == {"mul", "comm"}
InProds   == {"muli", "addmul", "submul", "mslp", "msrp", "mrld", "mrrd", "maai", "mii"}
Series    == {"exp", "log"}

(* operations whose result goes to a fresh vector stored in register r *)
Fresh == Constructors \cup Copies \cup Outs \cup OutProds \cup Series

(* an operation that has to be refused: a product without a degree *)
MustPanic(e) == e.op \in OutProds \cup InProds /\ e.d < 0

(* nothing is promised for the exponential of a tensor with a constant term  *)
(* and for the logarithm of one whose constant term is not one; a function   *)
(* that does not map zero to zero has a meaning for whole degrees only       *)
Promised(s, e) == CASE e.op = "exp" -> At(s.val[e.a], 0) = 0
                    [] e.op = "log" -> At(s.val[e.a], 0) = 1
                    [] e.op = "maai" -> ~Shifts(e.f) \/ (Whole(s.n, s.val[e.a]) /\ Whole(s.n, s.val[e.b]))
                    [] e.op = "mii" -> ~Shifts(e.f) \/ (Whole(s.n, s.val[e.r]) /\ Whole(s.n, s.val[e.a]))
                    [] OTHER -> TRUE

(* The coefficients register e.r has to have after the call, and the size it *)
(* has to have (-1: any size that holds them).  d >= 0 in "upto": only the   *)
(* words up to that degree are determined.                                   *)
Want(v) == [v |-> v, len |-> -1, upto |-> -1]
WantLen(v, k) == [v |-> v, len |-> k, upto |-> -1]
WantUpTo(v, d) == [v |-> v, len |-> -1, upto |-> d]

Expect(s, e) ==
    LET p == s.p
        n == s.n
        me == IF "r" \in DOMAIN e THEN s.val[e.r] ELSE <<>>
        a == IF "a" \in DOMAIN e THEN s.val[e.a] ELSE <<>>
        b == IF "b" \in DOMAIN e THEN s.val[e.b] ELSE <<>>
        k == Idx(s, e.k)
    IN
    CASE e.op = "new"     -> WantLen(<<>>, 0)
      [] e.op = "fromkey" -> WantLen(VUnit(k, 1), DimFor(s, k))
      [] e.op = "fromks"  -> WantLen(VUnit(k, e.s), DimFor(s, k))
      [] e.op = "fromcat" -> LET c == IndexN(n, e.k \o e.k2) IN WantLen(VUnit(c, 1), DimFor(s, c))
      [] e.op = "fromit"  -> WantLen(SumPairs(s, e.ps),
                                     IF e.ps = <<>> THEN 0 ELSE DimFor(s, MaxIdx(s, e.ps, 1, 0)))
      [] e.op = "fromvec" -> WantLen(e.v, Len(e.v))
      [] e.op = "fromdim" -> WantLen(<<>>, e.x)
      [] e.op \in {"borrow", "borrowmut"} -> WantLen(s.buf[e.y], Len(s.buf[e.y]))
      [] e.op \in Copies  -> WantLen(a, Len(a))
      \* arithmetic with a fresh result
      [] e.op = "neg"     -> Want(VNeg(p, a))
      [] e.op = "add"     -> Want(VAdd(p, a, b))
      [] e.op = "sub"     -> Want(VSub(p, a, b))
      [] e.op \in {"smr", "sml"} -> Want(VScale(p, a, e.s))
      [] e.op \in {"sdr", "sdl"} -> Want(VScale(p, a, SInv(p, e.q)))
      \* in place
      [] e.op = "negi"    -> Want(VNeg(p, me))
      [] e.op = "addi"    -> Want(VAdd(p, me, a))
      [] e.op = "subi"    -> Want(VSub(p, me, a))
      [] e.op \in {"smli", "smri"} -> Want(VScale(p, me, e.s))
      [] e.op \in {"sdri", "sdli"} -> Want(VScale(p, me, SInv(p, e.q)))
      [] e.op \in {"asrm", "aslm"} -> Want(VAdd(p, me, VScale(p, a, e.s)))
      [] e.op \in {"ssrm", "sslm"} -> Want(VSub(p, me, VScale(p, a, e.s)))
      [] e.op \in {"asrd", "asld"} -> Want(VAdd(p, me, VScale(p, a, SInv(p, e.q))))
      [] e.op \in {"ssrd", "ssld"} -> Want(VSub(p, me, VScale(p, a, SInv(p, e.q))))
      \* one coefficient
      [] e.op = "kam"     -> Want(VPut(me, k, SAdd(p, At(me, k), e.s)))
      [] e.op = "ksm"     -> Want(VPut(me, k, SSub(p, At(me, k), e.s)))
      [] e.op = "kad"     -> Want(VPut(me, k, SAdd(p, At(me, k), SInv(p, e.q))))
      [] e.op = "ksd"     -> Want(VPut(me, k, SSub(p, At(me, k), SInv(p, e.q))))
      \* updates
      [] e.op = "getmut"  -> IF e.res = <<>> \/ k >= FarAway THEN Want(me) ELSE Want(VPut(me, k, e.s))
      [] e.op = "ins1"    -> Want(VPut(me, k, e.s))
      [] e.op = "ins"     -> Want(PutPairs(s, e.ps, me))
      [] e.op = "erase"   -> Want(IF k < Len(me) THEN VPut(me, k, 0) ELSE me)
      [] e.op = "clear"   -> Want(<<>>)
      [] e.op = "getmutslice" -> WantLen(IF e.x <= e.x2 /\ e.x2 <= Len(me) THEN Fill(me, e.x, e.x2, e.s) ELSE me, Len(me))
      [] e.op = "resize"  -> WantLen(SubSeq(me, 1, MinOf(Len(me), e.x)), e.x)
      \* products
      [] e.op = "mul"     -> Want(VMul(n, p, a, b, e.d))
      [] e.op = "comm"    -> Want(VComm(n, p, a, b, e.d))
      [] e.op = "muli"    -> Want(VMul(n, p, me, a, e.d))
      [] e.op = "addmul"  -> Want(VAdd(p, me, VMul(n, p, a, b, e.d)))
      [] e.op = "submul"  -> Want(VSub(p, me, VMul(n, p, a, b, e.d)))
      [] e.op \in {"mslp", "msrp"} -> Want(VScale(p, VMul(n, p, me, a, e.d), e.s))
      [] e.op \in {"mrld", "mrrd"} -> Want(VScale(p, VMul(n, p, me, a, e.d), SInv(p, e.q)))
      [] e.op = "maai"    -> Want(VAdd(p, me, IF Shifts(e.f) THEN VMulAll(n, p, e.f, a, b, e.d) ELSE VMulF(n, p, e.f, a, b, e.d)))
      [] e.op = "mii"     -> Want(IF Shifts(e.f) THEN VMulAll(n, p, e.f, me, a, e.d) ELSE VMulF(n, p, e.f, me, a, e.d))
      [] e.op = "exp"     -> WantUpTo(VExp(n, p, a, s.maxd), s.maxd)
      [] e.op = "log"     -> WantUpTo(VLog(n, p, a, s.maxd), s.maxd)
      [] e.op = "fmexp"   -> WantUpTo(VFmexp(n, p, me, a, s.maxd), s.maxd)

Meets(s, w, v) ==
    /\ (w.len >= 0 => Len(v) = w.len)
    /\ IF w.upto >= 0 THEN Same(VTrunc(s.n, v, w.upto), VTrunc(s.n, w.v, w.upto)) ELSE Same(v, w.v)

(* what a call may return *)
ResultOk(s, e) ==
    LET a == IF "a" \in DOMAIN e THEN s.val[e.a] ELSE <<>>
        b == IF "b" \in DOMAIN e THEN s.val[e.b] ELSE <<>>
        Lookup(v, k) == e.res = <<At(v, k)>> \/ (e.res = <<>> /\ At(v, k) = 0)
    IN
    CASE e.op = "get"      -> Lookup(a, Idx(s, e.k))
      [] e.op = "getmut"   -> IF Idx(s, e.k) >= FarAway THEN e.res = <<>> ELSE Lookup(s.val[e.r], Idx(s, e.k))
      [] e.op = "getslice" -> e.res = (IF e.x <= e.x2 /\ e.x2 <= Len(a) THEN <<SubSeq(a, e.x + 1, e.x2)>> ELSE <<>>)
      [] e.op = "getidx"   -> e.res = (IF e.x < Len(a) THEN <<a[e.x + 1]>> ELSE <<>>)
      [] e.op = "getmutslice" -> LET v == s.val[e.r] IN
                                 e.res = (IF e.x <= e.x2 /\ e.x2 <= Len(v) THEN <<SubSeq(v, e.x + 1, e.x2)>> ELSE <<>>)
      [] e.op = "size"     -> e.res = <<Len(a)>>
      [] e.op = "degree"   -> e.res = <<DegStored(s, a)>>
      [] e.op = "eq"       -> \/ e.res = <<1>> /\ Same(a, b)
                              \/ e.res = <<0>> /\ a # b
      [] e.op = "fmt"      -> e.res = <<RenderVec(s.n, a)>>
      [] e.op = "fmtf"     -> e.res = <<RenderFloats(s.n, s.p, a, 1)>>
      [] e.op = "same"     -> Same(VTrunc(s.n, a, e.d), VTrunc(s.n, b, e.d))
      [] OTHER             -> TRUE

(* registers a call may change *)
Targets(e) == IF e.op = "swap" THEN {e.r, e.a}
              ELSE IF "r" \in DOMAIN e THEN {e.r} ELSE {}

(* Values after the call: val2 is what is (or is chosen to be) stored.       *)
ValuesOk(s, e, val2) ==
    IF e.op = "swap" THEN val2[e.r] = s.val[e.a] /\ val2[e.a] = s.val[e.r]
    ELSE "r" \in DOMAIN e => Meets(s, Expect(s, e), val2[e.r])

(* The buffer register r writes through to after the call: a set, because a  *)
(* resize to the same size, and an operation that replaces the tensor by a   *)
(* product, may or may not move the vector to its own storage                *)
Replacing == (InProds \ {"addmul", "submul", "maai"}) \cup {"fmexp"}
LendAfter(s, e, val2, r) ==
    IF e.op = "swap" /\ r = e.r THEN {s.lend[e.a]}
    ELSE IF e.op = "swap" /\ r = e.a THEN {s.lend[e.r]}
    ELSE IF r \notin Targets(e) THEN {s.lend[r]}
    ELSE IF e.op = "borrowmut" THEN {e.y}
    ELSE IF e.op \in Fresh \/ s.lend[r] = 0 THEN {0}
    ELSE IF Len(val2[r]) # Len(s.buf[s.lend[r]]) THEN {0}
    ELSE IF e.op \in {"resize"} \cup Replacing THEN {0, s.lend[r]}
    ELSE {s.lend[r]}

(* Lent buffers: a mutably lent one shows the vector's coefficients as long  *)
(* as the vector writes through to it; any other one never changes.  The     *)
(* call that outgrows a buffer may leave it half done: every coefficient is  *)
(* the old one, the new one, one inserted on the way, or (where the target   *)
(* is cleared first) zero.  The fused exponential takes several steps, the   *)
(* buffer may be left behind after any of them.                              *)
HalfDone(s, e, val2, r, b, now) ==
    /\ Len(now) = Len(s.buf[b])
    /\ e.op # "fmexp" => \A i \in 1..Len(now) :
          \/ now[i] = s.buf[b][i]
          \/ now[i] = 0 /\ e.op \in InProds
          \/ i <= Len(val2[r]) /\ now[i] = val2[r][i]
          \/ e.op = "ins" /\ \E j \in 1..Len(e.ps) : Idx(s, e.ps[j][1]) = i - 1 /\ e.ps[j][2] = now[i]

BuffersOk(s, e, val2, lend2, buf2) ==
    \A b \in DOMAIN s.buf :
        LET now == {r \in DOMAIN lend2 : lend2[r] = b}
            before == {r \in DOMAIN lend2 : s.lend[r] = b}
        IN IF e.op = "buf" /\ e.y = b THEN buf2[b] = e.v
           ELSE IF now # {} THEN \A r \in now : buf2[b] = val2[r]
           ELSE \/ buf2[b] = s.buf[b]
                \/ /\ e.op \notin Fresh
                   /\ \E r \in before : r \in Targets(e) /\ Len(val2[r]) > Len(s.buf[b])
                                          /\ HalfDone(s, e, val2, r, b, buf2[b])

StateOf(kind, n, p, maxd, nr, nb) ==
    [kind |-> kind, n |-> n, p |-> p, maxd |-> maxd,
     val |-> [r \in 1..nr |-> <<>>], lend |-> [r \in 1..nr |-> 0],
     buf |-> [b \in 1..nb |-> <<>>]]

(* The state after the call with the smallest admissible sizes, for          *)
(* exploring the specification on its own.                                   *)
Canon(s, e) ==
    LET val2 == IF e.op = "swap" THEN [s.val EXCEPT ![e.r] = s.val[e.a], ![e.a] = s.val[e.r]]
                ELSE IF "r" \in DOMAIN e
                THEN LET w == Expect(s, e)
                     IN [s.val EXCEPT ![e.r] = IF w.len >= 0 THEN [i \in 1..w.len |-> At(w.v, i - 1)] ELSE w.v]
                ELSE s.val
        lend2 == [r \in DOMAIN s.lend |-> LET c == LendAfter(s, e, val2, r)
                                          IN IF 0 \in c THEN 0 ELSE CHOOSE x \in c : TRUE]
        buf2 == [b \in DOMAIN s.buf |->
                   IF e.op = "buf" /\ e.y = b THEN e.v
                   ELSE LET now == {r \in DOMAIN lend2 : lend2[r] = b}
                        IN IF now = {} THEN s.buf[b] ELSE val2[CHOOSE r \in now : TRUE]]
    IN  [s EXCEPT !.val = val2, !.lend = lend2, !.buf = buf2]
=============================================================================
