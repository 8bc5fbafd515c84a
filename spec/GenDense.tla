------------------------------- MODULE GenDense -------------------------------
(* Behaviours of DenseMachine: from every combination of two operands of the *)
(* given contents and storage modes, every sequence of at most Level calls   *)
(* out of Ops.  Every transition is printed as the sequence of calls that    *)
(* leads to and through it, to be replayed on the library.                   *)
EXTENDS DenseMachine, Json, FiniteSets

CONSTANTS Kind, N, P, MaxD, Ops, Vecs, Modes, Level, Keys, Scals, Degrees, NoDegree, Funs, PairLists, Cuts

Degs == Degrees \cup (IF NoDegree THEN {-1} ELSE {})   \* -1: no degree given
NR == 3                  \* registers 1 and 2 are set up, 3 is free
NB == 2

VARIABLES s, hist, base   \* base: number of calls that set up the operands
vars == <<s, hist, base>>
View == s

Setup(r, mode, v) ==
    IF mode = "own" THEN <<[op |-> "fromvec", r |-> r, v |-> v]>>
    ELSE <<[op |-> "buf", y |-> r, v |-> v],
           [op |-> IF mode = "ro" THEN "borrow" ELSE "borrowmut", r |-> r, y |-> r]>>

RECURSIVE RunAll(_, _, _)
RunAll(t, es, i) == IF i > Len(es) THEN t ELSE RunAll(Canon(t, es[i]), es, i + 1)

Init == \E v1 \in Vecs, v2 \in Vecs, m1 \in Modes, m2 \in Modes :
           LET es == Setup(1, m1, v1) \o Setup(2, m2, v2)
           IN  hist = es /\ base = Len(es) /\ s = RunAll(StateOf(Kind, N, P, MaxD, NR, NB), es, 1)

R == {1, 3}
A == {1, 2}
Sig(op) ==
    CASE op \in {"new", "clear", "negi"} -> {[op |-> op, r |-> r] : r \in {1}}
      [] op \in {"fromkey"} -> {[op |-> op, r |-> 3, k |-> k] : k \in Keys}
      [] op \in {"erase"} -> {[op |-> op, r |-> 1, k |-> k] : k \in Keys}
      [] op \in {"fromks"} -> {[op |-> op, r |-> 3, k |-> k, s |-> x] : k \in Keys, x \in Scals}
      [] op \in {"ins1", "getmut", "kam", "ksm"} -> {[op |-> op, r |-> 1, k |-> k, s |-> x] : k \in Keys, x \in Scals}
      [] op \in {"kad", "ksd"} -> {[op |-> op, r |-> 1, k |-> k, q |-> x] : k \in Keys, x \in Scals \ {0}}
      [] op = "fromit" -> {[op |-> op, r |-> 3, ps |-> q] : q \in PairLists}
      [] op = "ins" -> {[op |-> op, r |-> 1, ps |-> q] : q \in PairLists}
      [] op = "fromvec" -> {[op |-> op, r |-> 3, v |-> v] : v \in Vecs}
      [] op = "fromdim" -> {[op |-> op, r |-> 3, x |-> x] : x \in Cuts}
      [] op = "resize" -> {[op |-> op, r |-> 1, x |-> x] : x \in Cuts}
      [] op \in {"clone", "own", "rewrap", "neg"} -> {[op |-> op, r |-> 3, a |-> a] : a \in A}
      [] op \in {"exp", "log"} -> {[op |-> op, r |-> 3, a |-> 1]}
      [] op \in {"swap", "addi", "subi", "fmexp"} -> {[op |-> op, r |-> 1, a |-> 2]}
      [] op = "get" -> {[op |-> op, a |-> 1, k |-> k] : k \in Keys}
      [] op = "getslice" -> {[op |-> op, a |-> 1, x |-> x, x2 |-> y] : x \in Cuts, y \in Cuts}
      [] op = "getmutslice" -> {[op |-> op, r |-> 1, x |-> x, x2 |-> y, s |-> z] : x \in Cuts, y \in Cuts, z \in Scals}
      [] op = "getidx" -> {[op |-> op, a |-> 1, x |-> x] : x \in Cuts}
      [] op \in {"size", "degree", "fmt"} -> {[op |-> op, a |-> a] : a \in A}
      [] op = "eq" -> {[op |-> op, a |-> a, b |-> 3 - a] : a \in A}
      [] op \in {"add", "sub"} -> {[op |-> op, r |-> 3, a |-> 1, b |-> b] : b \in A}
      [] op \in {"smr", "sml"} -> {[op |-> op, r |-> 3, a |-> 1, s |-> x] : x \in Scals}
      [] op \in {"sdr", "sdl"} -> {[op |-> op, r |-> 3, a |-> 1, q |-> x] : x \in Scals \ {0}}
      [] op \in {"smli", "smri"} -> {[op |-> op, r |-> 1, s |-> x] : x \in Scals}
      [] op \in {"sdri", "sdli"} -> {[op |-> op, r |-> 1, q |-> x] : x \in Scals \ {0}}
      [] op \in {"asrm", "aslm", "ssrm", "sslm"} -> {[op |-> op, r |-> 1, a |-> 2, s |-> x] : x \in Scals}
      [] op \in {"asrd", "asld", "ssrd", "ssld"} -> {[op |-> op, r |-> 1, a |-> 2, q |-> x] : x \in Scals \ {0}}
      [] op \in {"mul", "comm"} -> {[op |-> op, r |-> 3, a |-> 1, b |-> 2, d |-> d] : d \in Degs}
      [] op \in {"addmul", "submul"} -> {[op |-> op, r |-> r, a |-> 2, b |-> b, d |-> d] : r \in {1}, b \in {2, 3}, d \in Degs}
      [] op = "muli" -> {[op |-> op, r |-> 1, a |-> 2, d |-> d] : d \in Degs}
      [] op \in {"mslp", "msrp"} -> {[op |-> op, r |-> 1, a |-> 2, s |-> x, d |-> d] : x \in Scals, d \in Degs}
      [] op \in {"mrld", "mrrd"} -> {[op |-> op, r |-> 1, a |-> 2, q |-> x, d |-> d] : x \in Scals \ {0}, d \in Degs}
      [] op = "maai" -> {[op |-> op, r |-> r, a |-> 2, b |-> 2, f |-> f, d |-> d] : r \in R, f \in Funs, d \in Degs}
      [] op = "mii" -> {[op |-> op, r |-> 1, a |-> 2, f |-> f, d |-> d] : f \in Funs, d \in Degs}

Calls == UNION {Sig(op) : op \in Ops}

(* reading through a mutable reference: the specification leaves open whether *)
(* an absent coefficient is reported; explored as present or refused by size  *)
Known(e) == IF e.op = "getmut"
            THEN [op |-> "getmut", r |-> e.r, k |-> e.k, s |-> e.s,
                  res |-> IF Idx(s, e.k) < Len(s.val[e.r]) THEN <<At(s.val[e.r], Idx(s, e.k))>> ELSE <<>>]
            ELSE e

Next == /\ Len(hist) - base < Level
        /\ \E e \in Calls : /\ (Len(s.val[1]) + Len(s.val[2]) + Len(s.val[3]) < 200)
                            /\ hist' = Append(hist, e) /\ base' = base
                            /\ s' = IF MustPanic(e) THEN s ELSE Canon(s, Known(e))
Spec == Init /\ [][Next]_vars

Emit == PrintT("SCRIPT " \o ToJson(hist'))

(* ---- what the specification itself promises ---- *)
IsVec(v) == \A i \in 1..Len(v) : IsScalar(P, v[i])
TypeOk == /\ \A r \in 1..NR : IsVec(s.val[r])
          /\ \A b \in 1..NB : IsVec(s.buf[b])
(* a mutably lent buffer shows the vector that writes through to it *)
WriteThrough == \A r \in 1..NR : s.lend[r] # 0 => s.buf[s.lend[r]] = s.val[r]
OneOwner == \A q, r \in 1..NR : s.lend[q] # 0 /\ s.lend[q] = s.lend[r] => q = r
(* a buffer nobody writes through to stays as it is *)
NotBehindTheBack == [][\A b \in 1..NB : (\A r \in 1..NR : s.lend[r] # b) => s'.buf[b] = s.buf[b]]_vars
(* only targets change *)
Last == hist'[Len(hist')]
Frame == [][\A r \in 1..NR : r \notin Targets(Last) => s'.val[r] = s.val[r]]_vars
(* the specification's own successor satisfies what it demands of traces *)
SelfConsistent == [][MustPanic(Last) \/ (ValuesOk(s, Known(Last), s'.val)
                     /\ BuffersOk(s, Last, s'.val, s'.lend, s'.buf))]_vars

(* ---- contents for the configurations: two letters ---- *)
V2small == {<<>>, <<2>>, <<0, 3>>, <<1, 0, 4>>, <<2, 1, 0, 3>>}
V2 == {<<>>, <<2>>, <<0, 3>>, <<1, 0, 4>>, <<2, 1, 0, 3>>, <<0, 0, 1, 2, 0, 4, 3>>}
V2wide == V2 \cup {<<0, 0>>, <<3, 2, 0, 0, 0, 1>>, <<1, 1, 2, 3, 0, 0, 0, 4>>, <<0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1>>}
V2unit == {<<>>, <<0>>, <<1>>, <<0, 3>>, <<1, 0, 4>>, <<0, 2, 0, 3>>, <<1, 1, 2, 2, 0, 4, 3>>, <<0, 0, 1, 2, 0, 4, 3>>, <<3, 2, 1>>, <<4>>}
V2one == {<<2>>}
V2eq == {<<>>, <<0>>, <<0, 0>>, <<2>>, <<2, 0>>, <<2, 1>>, <<1, 2>>, <<2, 1, 0, 3>>, <<2, 1, 0, 4>>, <<2, 1, 0, 3, 0>>, <<2, 1, 1, 3>>}
V2lent == {<<>>, <<2>>, <<0, 3, 1>>, <<2, 1, 0, 3, 0, 4, 1>>}
V2lent2 == {<<2>>, <<4, 3, 1>>}
K2few == {<<>>, <<2>>, <<2, 1>>}
V3 == {<<>>, <<2>>, <<0, 3>>, <<1, 0, 4, 2>>, <<2, 1, 0, 3, 0, 0, 1>>, <<0, 1, 2, 0, 3, 0, 1, 0, 2, 4, 0, 0, 1>>}
V1wide == {<<>>, <<2>>, <<0, 3>>, <<1, 0, 4, 2>>, <<5, 1, 0, 0, 7>>, <<0, 0, 2>>}
V1unit == {<<>>, <<0>>, <<1>>, <<0, 3>>, <<1, 0, 4, 2>>, <<0, 1, 0, 0, 7, 2>>, <<1, 5, 1, 1, 1, 1>>, <<6, 2, 0, 1>>}
K1 == {<<>>, <<1>>, <<1, 1>>, <<1, 1, 1, 1>>}
P1 == {<<>>, <<<<<<1>>, 3>>, <<<<>>, 2>>>>, <<<<<<1, 1>>, 1>>, <<<<1, 1>>, 3>>>>}
VIone == {<<0, 3>>}
V1 == {<<>>, <<2>>, <<0, 3>>, <<1, 0, 4, 2>>}
K2 == {<<>>, <<2>>, <<1, 2>>, <<2, 1, 1>>}
K2all == AllWords(2, 3)
P2 == {<<>>, <<<<<<1>>, 3>>, <<<<>>, 2>>>>, <<<<<<2, 1>>, 1>>, <<<<2, 1>>, 3>>>>, <<<<<<2, 2>>, 1>>, <<<<1>>, 4>>, <<<<2, 2>>, 4>>>>}
P2all == UNION {[1..k -> {<<>>, <<2>>, <<1, 2>>} \X {1, 4}] : k \in 0..3}
(* ---- integer keys ---- *)
VI == {<<>>, <<2>>, <<0, 3, 0, 1>>, <<1, 0, 4, 0, 2>>, <<0, 0, 0, 1, 2, 0, 4, 3>>}
KI == {<<0>>, <<1>>, <<3>>, <<4>>, <<7>>, <<9>>}
PI == {<<>>, <<<<<<5>>, 3>>, <<<<0>>, 2>>>>, <<<<<<8>>, 1>>, <<<<8>>, 3>>, <<<<1>>, 1>>>>}
=============================================================================
