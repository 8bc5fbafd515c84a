------------------------------ MODULE GenSparse ------------------------------
(* Behaviours of SparseMachine, printed transition by transition. *)
EXTENDS SparseMachine, Json

CONSTANTS P, Ops, Vecs, Level, Ks, Scals, PairLists
NR == 3
VARIABLES s, hist
vars == <<s, hist>>
View == s

RECURSIVE RunAll(_, _, _)
RunAll(t, es, i) == IF i > Len(es) THEN t ELSE RunAll(Canon(t, es[i]), es, i + 1)
Init == \E v1 \in Vecs, v2 \in Vecs :
          LET es == <<[op |-> "fromit", r |-> 1, ps |-> v1], [op |-> "fromit", r |-> 2, ps |-> v2]>>
          IN hist = es /\ s = RunAll(StateOf(P, NR), es, 1)

A == {1, 2}
Sig(op) ==
    CASE op \in {"new", "clear", "negi"} -> {[op |-> op, r |-> 1]}
      [] op \in {"fromkey"} -> {[op |-> op, r |-> 3, k |-> k] : k \in Ks}
      [] op \in {"erase"} -> {[op |-> op, r |-> 1, k |-> k] : k \in Ks}
      [] op \in {"fromks"} -> {[op |-> op, r |-> 3, k |-> k, s |-> x] : k \in Ks, x \in Scals}
      [] op \in {"ins1", "kam", "ksm", "getmut"} -> {[op |-> op, r |-> 1, k |-> k, s |-> x] : k \in Ks, x \in Scals}
      [] op \in {"kad", "ksd"} -> {[op |-> op, r |-> 1, k |-> k, q |-> x] : k \in Ks, x \in Scals \ {0}}
      [] op = "fromit" -> {[op |-> op, r |-> 3, ps |-> q] : q \in PairLists}
      [] op = "ins" -> {[op |-> op, r |-> 1, ps |-> q] : q \in PairLists}
      [] op \in {"own", "neg", "rewrap"} -> {[op |-> op, r |-> 3, a |-> a] : a \in A}
      [] op \in {"swap", "addi", "subi"} -> {[op |-> op, r |-> 1, a |-> 2]}
      [] op = "get" -> {[op |-> op, a |-> 1, k |-> k] : k \in Ks}
      [] op = "iter" -> {[op |-> op, a |-> a] : a \in A}
      [] op = "eq" -> {[op |-> op, a |-> a, b |-> 3 - a] : a \in A}
      [] op \in {"add", "sub"} -> {[op |-> op, r |-> 3, a |-> 1, b |-> b] : b \in A}
      [] op \in {"smr", "sml"} -> {[op |-> op, r |-> 3, a |-> 1, s |-> x] : x \in Scals}
      [] op \in {"sdr", "sdl"} -> {[op |-> op, r |-> 3, a |-> 1, q |-> x] : x \in Scals \ {0}}
      [] op \in {"smli", "smri"} -> {[op |-> op, r |-> 1, s |-> x] : x \in Scals}
      [] op \in {"sdri", "sdli"} -> {[op |-> op, r |-> 1, q |-> x] : x \in Scals \ {0}}
      [] op \in {"asrm", "aslm", "ssrm", "sslm"} -> {[op |-> op, r |-> 1, a |-> 2, s |-> x] : x \in Scals}
      [] op \in {"asrd", "asld", "ssrd", "ssld"} -> {[op |-> op, r |-> 1, a |-> 2, q |-> x] : x \in Scals \ {0}}

Calls == UNION {Sig(op) : op \in Ops}
Known(e) == IF e.op = "getmut"
            THEN [op |-> "getmut", r |-> e.r, k |-> e.k, s |-> e.s,
                  res |-> IF e.k[1] \in Keys(s.val[e.r]) THEN <<Co(s.val[e.r], e.k[1])>> ELSE <<>>]
            ELSE e
Next == /\ Len(hist) - 2 < Level
        /\ \E e \in Calls : hist' = Append(hist, e) /\ s' = Canon(s, Known(e))
Spec == Init /\ [][Next]_vars
Emit == PrintT("SCRIPT " \o ToJson(hist'))

TypeOk == \A r \in 1..NR : WellFormed(P, s.val[r])
Last == hist'[Len(hist')]
Frame == [][\A r \in 1..NR : r \notin Targets(Last) => s'.val[r] = s.val[r]]_vars
SelfConsistent == [][ValuesOk(s, Known(Last), s'.val)]_vars

VS == {<<>>, <<<<<<1>>, 2>>>>, <<<<<<1>>, 3>>, <<<<4>>, 1>>>>, <<<<<<1>>, 2>>, <<<<2>>, 4>>, <<<<1>>, 3>>>>, <<<<<<0>>, 0>>, <<<<2>>, 1>>>>}
PS == {<<>>, <<<<<<1>>, 3>>, <<<<0>>, 2>>>>, <<<<<<4>>, 1>>, <<<<4>>, 4>>>>, <<<<<<2>>, 1>>, <<<<2>>, 1>>, <<<<1>>, 0>>>>}
KS == {<<0>>, <<1>>, <<2>>, <<4>>, <<7>>}
=============================================================================
