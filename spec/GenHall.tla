-------------------------------- MODULE GenHall --------------------------------
(* Growth histories of a size table, printed with the look-ups to make after  *)
(* each of them.                                                              *)
EXTENDS HallMachine, Json
CONSTANTS Width, Sizes, Level
VARIABLES s, hist
vars == <<s, hist>>
View == s
Init == s = [len |-> 0, cum |-> Cumulative(Width, TopDegree(Width))] /\ hist = <<>>
Calls == {[op |-> o, d |-> d] : o \in {"tnew", "grow"}, d \in Sizes}
Next == /\ Len(hist) < Level
        /\ \E e \in Calls : hist' = Append(hist, e) /\ s' = [s EXCEPT !.len = TableLen(s, e)]
Spec == Init /\ [][Next]_vars
(* boundaries worth asking for, by degree *)
Asks(t) == [i \in 1..(t.len + 2) |-> [op |-> "get", d |-> i - 1]]
           \o [i \in 1..t.len |-> [op |-> "find", i |-> t.cum[i]]]
           \o [i \in 1..t.len |-> [op |-> "find", i |-> BAdd(t.cum[i], <<1>>)]]
Emit == PrintT("SCRIPT " \o ToJson(hist' \o Asks(s')))
NeverShrinks == [][hist'[Len(hist')].op = "grow" => s'.len >= s.len /\ s'.len > hist'[Len(hist')].d]_vars
=============================================================================
