----------------------------- MODULE FloatTrace -----------------------------
(* Is a recorded run of the coefficient operations what FloatMachine allows? *)
EXTENDS FloatMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Checked == {Trace[1].checked[i] : i \in 1..Len(Trace[1].checked)}

VARIABLES l, f
vars == <<l, f>>

TraceInit == l = 2 /\ f = Format(53)

Begin(e) == e.op = "begin" /\ f' = Format(e.bits)
Call(e) == /\ e.op # "begin"
           /\ (e.op \in Checked => e.out = "ok" /\ (IF e.op \in NoVec THEN FloatOk(f, e) ELSE VectorOk(f, e)) = TRUE)
           /\ f' = f

TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN Begin(e) \/ Call(e)

TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceAccepted ==
    LET d == TLCGet("stats").diameter
    IN  IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
        ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
