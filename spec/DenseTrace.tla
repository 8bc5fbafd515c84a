----------------------------- MODULE DenseTrace -----------------------------
(* Is a recorded run of the library (IOEnv.TRACE) a behaviour of             *)
(* DenseMachine?  The first line says what is checked:                       *)
(*   checked  operations whose effect and result have to be the specified    *)
(*   must     operations that only have to return normally                   *)
(*   frame    nothing but the target changes (1: in checked, 2: in all calls)*)
(*   mem      no call kills the process, observed coefficients are scalars,  *)
(*            the guard zones of the heap are intact                         *)
(*   bufs     lent buffers                                                   *)
(*   twin     every call does the same as its twin, the same call on owning, *)
(*            unwrapped copies of the vectors                                *)
EXTENDS DenseMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Checked == {Trace[1].checked[i] : i \in 1..Len(Trace[1].checked)}
Frame(e) == Trace[1].frame = 2 \/ (Trace[1].frame = 1 /\ e.op \in Checked)
CheckMem == Trace[1].mem = 1
CheckBufs == Trace[1].bufs = 1
CheckTwin == Trace[1].twin = 1
Must == {Trace[1].must[i] : i \in 1..Len(Trace[1].must)}

VARIABLES l, s
vars == <<l, s>>

TraceInit == l = 2 /\ s = StateOf("t", 1, 5, 0, 1, 0)

Seen(list, old) == [r \in DOMAIN old |->
    LET hits == {i \in 1..Len(list) : list[i][1] = r}
    IN  IF hits = {} THEN old[r] ELSE list[CHOOSE i \in hits : TRUE][2]]

Begin(e) == e.op = "begin" /\ s' = StateOf(e.kind, e.n, e.p, e.maxd, e.nr, e.nb)

(* guard zones around all heap blocks are intact *)
Heap(e) == e.op = "heap" /\ s' = s /\ (CheckMem => e.res = <<1>>)

Me(e) == IF "r" \in DOMAIN e THEN e.r ELSE 0

(* the next call may panic at any point, because an operation on scalars does *)
Fuse(e) == e.op = "fuse" /\ s' = s

Judged(e, val2) ==
       /\ (Frame(e) => \A i \in 1..Len(e.obs) : e.obs[i][1] \in Targets(e))
       /\ (CheckMem => e.out # "crash")
       /\ (CheckTwin /\ "tout" \in DOMAIN e =>
             e.out = e.tout /\ e.res = e.tres /\ \A r \in DOMAIN val2 : Same(val2[r], Seen(e.tobs, s.val)[r]))
       /\ (CheckMem => \A i \in 1..Len(e.obs) : \A j \in 1..Len(e.obs[i][2]) : IsScalar(s.p, e.obs[i][2][j]))
       /\ (e.op \in Must /\ ~MustPanic(e) => e.out = "ok")
       /\ IF e.op \in Checked
          THEN IF MustPanic(e) THEN e.out = "panic"
               ELSE /\ e.out = "ok"
                    /\ Promised(s, e) => (ValuesOk(s, e, val2) /\ ResultOk(s, e))
          ELSE TRUE

(* ("= TRUE": TLC shall evaluate a condition, not enumerate the ways it can hold.)  *)
Call(e) ==
    /\ e.op \notin {"begin", "heap", "fuse"}
    /\ LET val2 == Seen(e.obs, s.val)
           buf2 == Seen(e.buf, s.buf)
       IN
       /\ Judged(e, val2) = TRUE
       /\ \E x \in (IF "r" \notin DOMAIN e THEN {0}
                    ELSE IF e.out = "panic" THEN {0, s.lend[e.r]}      \* half done or not begun
                    ELSE LendAfter(s, e, val2, e.r)) :
          LET lend2 == [r \in DOMAIN s.lend |-> IF r = Me(e) THEN x
                                                ELSE CHOOSE y \in LendAfter(s, e, val2, r) : TRUE] IN
            /\ (CheckBufs => (e.out = "panic" \/ BuffersOk(s, e, val2, lend2, buf2))) = TRUE
            /\ s' = [s EXCEPT !.val = val2, !.buf = buf2, !.lend = lend2]

TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN Begin(e) \/ Heap(e) \/ Fuse(e) \/ Call(e)

TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceAccepted ==
    LET d == TLCGet("stats").diameter
    IN  IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
        ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
