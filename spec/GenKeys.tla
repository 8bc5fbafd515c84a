-------------------------------- MODULE GenKeys --------------------------------
(* Behaviours of KeyMachine over a few letters of a large alphabet (whose     *)
(* words are short, so that the maximum depth is in reach), printed           *)
(* transition by transition.  "probe" stands for all read-only calls.         *)
EXTENDS KeyMachine, Json

CONSTANTS N, Alpha, Ops, Level, Longest

VARIABLES s, hist
vars == <<s, hist>>
View == s

Words0 == UNION {[1..k -> Alpha] : k \in 0..Longest}
Init == \E u \in Words0, v \in Words0 :
           /\ hist = <<[op |-> "letters", r |-> 1, w |-> u], [op |-> "letters", r |-> 2, w |-> v]>>
           /\ s = [StateOf(N, 3, 1) EXCEPT !.keys[1] = u, !.keys[2] = v]

Sig(op) ==
    CASE op = "new"    -> {[op |-> op, r |-> 1]}
      [] op = "letter" -> {[op |-> op, r |-> 3, l |-> x] : x \in Alpha}
      [] op = "letters"-> {[op |-> op, r |-> 3, w |-> w] : w \in UNION {[1..k -> Alpha] : k \in (MaxDepth(N)+1)..(MaxDepth(N)+1)}}
      [] op = "push"   -> {[op |-> op, r |-> 1, l |-> x] : x \in IF Len(s.keys[1]) < MaxDepth(N) THEN Alpha ELSE {}}
      [] op = "copy"   -> {[op |-> op, r |-> 3, a |-> a] : a \in {1, 2}}
      [] op = "cat"    -> {[op |-> op, r |-> 3, a |-> a, b |-> b] : a \in {1, 2}, b \in {1, 2}}
      [] op \in {"eq", "cmp"} -> {[op |-> op, a |-> 1, b |-> 2]}
      [] op \in {"read", "deg", "dimkey", "fmt", "idx"} -> {[op |-> op, a |-> 1]}
      [] op = "iterfrom" -> {[op |-> op, j |-> 1, a |-> 1]}
      [] op = "iter"     -> {[op |-> op, j |-> 1]}
      [] op = "next"     -> IF s.its[1].st = "none" THEN {} ELSE {[op |-> op, j |-> 1, r |-> 3]}
      [] op = "nth"      -> IF s.its[1].st = "none" THEN {} ELSE {[op |-> op, j |-> 1, x |-> x, r |-> 3] : x \in {0, 1, 2}}
Calls == UNION {Sig(op) : op \in Ops}

Next == /\ Len(hist) - 2 < Level
        /\ \E e \in Calls : /\ hist' = Append(hist, e)
                            /\ s' = Effect(s, e).s
Spec == Init /\ [][Next]_vars
Emit == PrintT("SCRIPT " \o ToJson(hist'))

TypeOk == \A r \in 1..3 : Len(s.keys[r]) <= MaxDepth(N) /\ \A i \in 1..Len(s.keys[r]) : s.keys[r][i] \in 1..N
Refuses == [][LET e == hist'[Len(hist')] IN
              Effect(s, e).out = "panic" => s' = s /\ e.op \in {"letters", "cat"}]_vars
RoundTrip == \A r \in 1..3 : WordAt(N, Index(N, s.keys[r])) = s.keys[r]
=============================================================================
