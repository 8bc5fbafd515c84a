------------------------------ MODULE HallCache ------------------------------
(* The cache of Hall sets: threads ask for the set of a width.  A request    *)
(* looks the width up under the read lock, releases it, builds a candidate   *)
(* if there was none, and under the write lock stores the candidate unless   *)
(* another thread has stored one meanwhile; it returns what is stored.       *)
(*                                                                           *)
(* Variant "good" is the algorithm of the library; "upgrade" keeps the read  *)
(* lock while it waits for the write lock and "blind" replaces whatever is   *)
(* stored: both were defects of the original code and serve as negative      *)
(* controls (a deadlock, two sets for one width).                            *)
EXTENDS Integers, FiniteSets, Sequences, TLC

CONSTANTS Threads, Widths, Requests, Variant

VARIABLES pc, want, got, cand, left, readers, writer, cache, next, returned
vars == <<pc, want, got, cand, left, readers, writer, cache, next, returned>>

None == 0

Init == /\ pc = [t \in Threads |-> "idle"]
        /\ want = [t \in Threads |-> CHOOSE w \in Widths : TRUE]
        /\ got = [t \in Threads |-> None]
        /\ cand = [t \in Threads |-> None]
        /\ left = [t \in Threads |-> Requests]
        /\ readers = {} /\ writer = None
        /\ cache = [w \in Widths |-> None]
        /\ next = 1
        /\ returned = {}

Ask(t) == /\ pc[t] = "idle" /\ left[t] > 0
          /\ \E w \in Widths : want' = [want EXCEPT ![t] = w]
          /\ pc' = [pc EXCEPT ![t] = "read"]
          /\ left' = [left EXCEPT ![t] = @ - 1]
          /\ UNCHANGED <<got, cand, readers, writer, cache, next, returned>>

ReadLock(t) == /\ pc[t] = "read" /\ writer = None
               /\ readers' = readers \cup {t}
               /\ pc' = [pc EXCEPT ![t] = "look"]
               /\ UNCHANGED <<want, got, cand, left, writer, cache, next, returned>>

Look(t) == /\ pc[t] = "look"
           /\ got' = [got EXCEPT ![t] = cache[want[t]]]
           /\ IF cache[want[t]] # None
              THEN pc' = [pc EXCEPT ![t] = "return"] /\ readers' = readers \ {t}
              ELSE /\ pc' = [pc EXCEPT ![t] = "build"]
                   /\ readers' = IF Variant = "upgrade" THEN readers ELSE readers \ {t}
           /\ UNCHANGED <<want, cand, left, writer, cache, next, returned>>

Build(t) == /\ pc[t] = "build"
            /\ cand' = [cand EXCEPT ![t] = next]
            /\ next' = next + 1
            /\ pc' = [pc EXCEPT ![t] = "write"]
            /\ UNCHANGED <<want, got, left, readers, writer, cache, returned>>

WriteLock(t) == /\ pc[t] = "write" /\ writer = None /\ readers = {}
                /\ writer' = t
                /\ pc' = [pc EXCEPT ![t] = "store"]
                /\ UNCHANGED <<want, got, cand, left, readers, cache, next, returned>>

Store(t) == /\ pc[t] = "store"
            /\ LET w == want[t] IN
               IF cache[w] = None \/ Variant = "blind"
               THEN cache' = [cache EXCEPT ![w] = cand[t]] /\ got' = [got EXCEPT ![t] = cand[t]]
               ELSE cache' = cache /\ got' = [got EXCEPT ![t] = cache[w]]
            /\ writer' = None
            /\ pc' = [pc EXCEPT ![t] = "return"]
            /\ UNCHANGED <<want, cand, left, readers, next, returned>>

Return(t) == /\ pc[t] = "return"
             /\ returned' = returned \cup {<<want[t], got[t]>>}
             /\ pc' = [pc EXCEPT ![t] = "idle"]
             /\ got' = [got EXCEPT ![t] = None] /\ cand' = [cand EXCEPT ![t] = None]
             /\ UNCHANGED <<want, left, readers, writer, cache, next>>

Step(t) == Ask(t) \/ ReadLock(t) \/ Look(t) \/ Build(t) \/ WriteLock(t) \/ Store(t) \/ Return(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

(* what HallTrace demands of the identities observed *)
OneSetPerWidth == \A x, y \in returned : x[1] = y[1] <=> x[2] = y[2]
NeverNone == \A x \in returned : x[2] # None
LockOk == writer # None => readers = {}
Stable == [][\A w \in Widths : cache[w] # None => cache'[w] = cache[w]]_vars
(* no request waits forever *)
Answered == \A t \in Threads : (pc[t] # "idle") ~> (pc[t] = "idle")
AllServed == <>[](\A t \in Threads : pc[t] = "idle" /\ left[t] = 0)
(* candidates are interchangeable: only the stored and held ones matter *)
View == <<pc, want, got, left, readers, writer, cache, returned, {t \in Threads : cand[t] # None}>>
=============================================================================
