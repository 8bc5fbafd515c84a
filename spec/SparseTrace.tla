---------------------------- MODULE SparseTrace ----------------------------
(* Is a recorded run a behaviour of SparseMachine?  (See DenseTrace for the  *)
(* first line.)                                                              *)
EXTENDS SparseMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Checked == {Trace[1].checked[i] : i \in 1..Len(Trace[1].checked)}
Frame(e) == Trace[1].frame = 2 \/ (Trace[1].frame = 1 /\ e.op \in Checked)
CheckMem == Trace[1].mem = 1
CheckTwin == Trace[1].twin = 1
Must == {Trace[1].must[i] : i \in 1..Len(Trace[1].must)}

VARIABLES l, s
vars == <<l, s>>

TraceInit == l = 2 /\ s = StateOf(5, 1)

Seen(list, old) == [r \in DOMAIN old |->
    LET hits == {i \in 1..Len(list) : list[i][1] = r}
    IN  IF hits = {} THEN old[r] ELSE list[CHOOSE i \in hits : TRUE][2]]

Begin(e) == e.op = "begin" /\ s' = StateOf(e.p, e.nr)
Heap(e) == e.op = "heap" /\ s' = s /\ (CheckMem => e.res = <<1>>)

(* the next call may panic at any point, because an operation on scalars does *)
Fuse(e) == e.op = "fuse" /\ s' = s

Judged(e, val2) ==
       /\ (Frame(e) => \A i \in 1..Len(e.obs) : e.obs[i][1] \in Targets(e))
       /\ (CheckMem => e.out # "crash")
       /\ (CheckTwin /\ "tout" \in DOMAIN e =>
             e.out = e.tout /\ e.res = e.tres /\ \A r \in DOMAIN val2 : ~Differ(val2[r], Seen(e.tobs, s.val)[r]))
       /\ (CheckMem => \A i \in 1..Len(e.obs) : WellFormed(s.p, e.obs[i][2]))
       /\ (e.op \in Must => e.out = "ok")
       /\ IF e.op \in Checked
          THEN /\ e.out = "ok"
               /\ ValuesOk(s, e, val2)
               /\ ResultOk(s, e)
               /\ \A r \in Targets(e) : WellFormed(s.p, val2[r])
          ELSE TRUE

(* ("= TRUE": TLC shall evaluate a condition, not enumerate the ways it can hold.)  *)
Call(e) ==
    /\ e.op \notin {"begin", "heap", "fuse"}
    /\ LET val2 == Seen(e.obs, s.val) IN
       /\ Judged(e, val2) = TRUE
       /\ s' = [s EXCEPT !.val = val2]

TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN Begin(e) \/ Heap(e) \/ Fuse(e) \/ Call(e)

TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceAccepted ==
    LET d == TLCGet("stats").diameter
    IN  IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
        ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
