------------------------------ MODULE KeyTrace ------------------------------
(* Is a recorded run of the library (trace.ndjson) a behaviour of KeyMachine?*)
(* The first line names the operations whose effect is checked; the others   *)
(* just move the state to what was observed.                                 *)
EXTENDS KeyMachine, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Checked == {Trace[1].checked[i] : i \in 1..Len(Trace[1].checked)}
CheckFrame == Trace[1].frame = 1

VARIABLES l, s
vars == <<l, s>>

TraceInit == l = 2 /\ s = StateOf(1, 1, 1)

(* the keys as observed after the call *)
ObsKeys(keys, e) == [r \in DOMAIN keys |->
    LET hits == {i \in 1..Len(e.obs) : e.obs[i][1] = r}
    IN  IF hits = {} THEN keys[r] ELSE e.obs[CHOOSE i \in hits : TRUE][2]]

Begin(e) == e.op = "begin" /\ s' = StateOf(e.n, e.nk, e.ni)

(* "blocks": indices and words only have to lie in the block of their degree *)
Blocks == "blocks" \in Checked
InBlock(e, ks) ==
    CASE e.op = "idx" -> LET d == Len(s.keys[e.a]) IN
                         Fits64(Index(s.n, s.keys[e.a])) =>
                            e.out = "ok" /\ BCmp(Start(s.n, d), e.res) <= 0 /\ BCmp(e.res, Start(s.n, d + 1)) < 0
      [] e.op = "at" -> LET d == DegreeOfIndex(s.n, e.i) IN
                        d <= MaxDepth(s.n) => e.out = "ok" /\ Len(ks[e.r]) = d
      [] OTHER -> TRUE

Targets(e) == IF "r" \in DOMAIN e THEN {e.r} ELSE {}

(* Iterators cannot be looked at, so their state follows the specification;  *)
(* after an unchecked "next" it follows the word that came out.              *)
Resync(e) ==
    LET ks == ObsKeys(s.keys, e)
        f == Effect(s, e)
    IN  IF e.out = "ok" /\ e.op = "iter" THEN [s EXCEPT !.keys = ks, !.its[e.j] = Run(<<>>)]
        ELSE IF e.out = "ok" /\ e.op = "iterfrom" THEN [s EXCEPT !.keys = ks, !.its[e.j] = Run(s.keys[e.a])]
        ELSE IF e.out = "ok" /\ e.op = "next" /\ e.res = <<1>>
             THEN [s EXCEPT !.keys = ks, !.its[e.j] = AfterNext(s.n, ks[e.r])]
        ELSE [s EXCEPT !.keys = ks]

Call(e) ==
    /\ e.op # "begin"
    /\ (CheckFrame /\ e.op \in Checked => \A i \in 1..Len(e.obs) : e.obs[i][1] \in Targets(e))
    /\ IF e.op \in Checked
       THEN LET f == Effect(s, e) IN
            CASE f.out = "ok"    -> /\ e.out = "ok"
                                    /\ e.res = f.res
                                    /\ ObsKeys(s.keys, e) = f.s.keys
                                    /\ s' = f.s
              [] f.out = "panic" -> /\ e.out = "panic"
                                    /\ e.obs = <<>>
                                    /\ s' = s
              [] f.out = "any"   -> s' = Resync(e)
       ELSE s' = Resync(e)
    /\ (Blocks => InBlock(e, ObsKeys(s.keys, e)) = TRUE)

TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN Begin(e) \/ Call(e)

TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceAccepted ==
    LET d == TLCGet("stats").diameter
    IN  IF d = Len(Trace) THEN PrintT(<<"ACCEPTED", d>>)
        ELSE PrintT(<<"REJECTED", d + 1>>) /\ FALSE
=============================================================================
