------------------------------ MODULE HallTrace ------------------------------
(* Is a recorded run a behaviour of HallMachine?  The cache lives as long as *)
(* the process: s.ids survives the start of a new episode.                   *)
EXTENDS HallMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Checked == {Trace[1].checked[i] : i \in 1..Len(Trace[1].checked)}

VARIABLES l, s
vars == <<l, s>>

TraceInit == l = 2 /\ s = [len |-> 0, cum |-> <<>>, ids |-> {}]

(* "process": the driver was started afresh *)
Begin(e) ==
    CASE e.op = "begin"   -> s' = [s EXCEPT !.len = 0,
                                   !.cum = IF "n" \in DOMAIN e THEN Cumulative(e.n, TopDegree(e.n)) ELSE <<>>]
      [] e.op = "process" -> s' = [s EXCEPT !.ids = {}]
      [] OTHER -> FALSE

Call(e) ==
    /\ e.op \notin {"begin", "process"}
    /\ (e.op \in Checked => e.out = "ok")
    /\ CASE e.op \in TableOps -> /\ (e.op \in Checked => TableOk(s, e) = TRUE)
                                 /\ s' = [s EXCEPT !.len = TableLen(s, e)]
         [] e.op \in CacheOps -> /\ (e.op \in Checked => QueryOk(e) = TRUE)
                                 /\ s' = [s EXCEPT !.ids = @ \cup Reported(e)]
                                 /\ (e.op \in Checked => OneSetPerWidth(s'.ids) = TRUE)
         [] e.op \in KeyOps   -> /\ (e.op \in Checked => HallKeyOk(e) = TRUE)
                                 /\ s' = s

TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN Begin(e) \/ Call(e)

TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceAccepted ==
    LET d == TLCGet("stats").diameter
    IN  IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
        ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
