--------------------------- MODULE HallCacheProof ---------------------------
(* HallCache for any number of threads, widths and requests: an inductive    *)
(* invariant, checked by the TLA+ proof system.                              *)
EXTENDS HallCache, TLAPS

ASSUME Setting == /\ Variant = "good"
                  /\ None \notin Threads
                  /\ Widths # {}
                  /\ Requests \in Nat

PCs == {"idle", "read", "look", "build", "write", "store", "return"}

TypeOK == /\ pc \in [Threads -> PCs]
          /\ want \in [Threads -> Widths]
          /\ got \in [Threads -> Nat]
          /\ cand \in [Threads -> Nat]
          /\ readers \in SUBSET Threads
          /\ writer \in Threads \cup {None}
          /\ cache \in [Widths -> Nat]
          /\ next \in Nat /\ next # None
          /\ returned \in SUBSET (Widths \X Nat)

Holding(t) == pc[t] \in {"write", "store"}

Fresh == /\ \A w \in Widths : cache[w] < next
         /\ \A t \in Threads : cand[t] < next
Distinct == \A v, w \in Widths : cache[v] # None /\ cache[v] = cache[w] => v = w
Candidates == \A t \in Threads : Holding(t) =>
                 /\ cand[t] # None
                 /\ \A w \in Widths : cache[w] # cand[t]
                 /\ \A u \in Threads : Holding(u) /\ cand[u] = cand[t] => u = t
Answers == \A t \in Threads : pc[t] = "return" => got[t] = cache[want[t]] /\ got[t] # None
Given == \A x \in returned : x[2] # None /\ cache[x[1]] = x[2]
Locks == /\ \A t \in Threads : pc[t] = "store" <=> writer = t
         /\ \A t \in Threads : pc[t] = "look" <=> t \in readers
         /\ writer # None => readers = {}

Inv == TypeOK /\ Fresh /\ Distinct /\ Candidates /\ Answers /\ Given /\ Locks

LEMMA Start == Init => Inv
  BY Setting DEF Init, Inv, TypeOK, Fresh, Distinct, Candidates, Answers, Given, Locks, Holding, PCs, None

LEMMA Kept == Inv /\ [Next]_vars => Inv'
<1> SUFFICES ASSUME Inv, [Next]_vars PROVE Inv'
  OBVIOUS
<1> USE Setting DEF None, PCs, Holding
<1>0. CASE UNCHANGED vars
  BY <1>0 DEF vars, Inv, TypeOK, Fresh, Distinct, Candidates, Answers, Given, Locks
<1>1. ASSUME NEW t \in Threads, Ask(t) PROVE Inv'
  BY <1>1 DEF Ask, Inv, TypeOK, Fresh, Distinct, Candidates, Answers, Given, Locks
<1>2. ASSUME NEW t \in Threads, ReadLock(t) PROVE Inv'
  BY <1>2 DEF ReadLock, Inv, TypeOK, Fresh, Distinct, Candidates, Answers, Given, Locks
<1>3. ASSUME NEW t \in Threads, Look(t) PROVE Inv'
  BY <1>3 DEF Look, Inv, TypeOK, Fresh, Distinct, Candidates, Answers, Given, Locks
<1>4. ASSUME NEW t \in Threads, Build(t) PROVE Inv'
  BY <1>4 DEF Build, Inv, TypeOK, Fresh, Distinct, Candidates, Answers, Given, Locks
<1>5. ASSUME NEW t \in Threads, WriteLock(t) PROVE Inv'
  BY <1>5 DEF WriteLock, Inv, TypeOK, Fresh, Distinct, Candidates, Answers, Given, Locks
<1>6. ASSUME NEW t \in Threads, Store(t) PROVE Inv'
  BY <1>6 DEF Store, Inv, TypeOK, Fresh, Distinct, Candidates, Answers, Given, Locks
<1>7. ASSUME NEW t \in Threads, Return(t) PROVE Inv'
  BY <1>7 DEF Return, Inv, TypeOK, Fresh, Distinct, Candidates, Answers, Given, Locks
<1> QED
  BY <1>0, <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF Next, Step

LEMMA Enough == Inv => OneSetPerWidth /\ NeverNone /\ LockOk
  BY Setting DEF Inv, TypeOK, Distinct, Given, Locks, OneSetPerWidth, NeverNone, LockOk, None

THEOREM Safe == Spec => [](OneSetPerWidth /\ NeverNone /\ LockOk)
  BY Start, Kept, Enough, PTL DEF Spec

THEOREM Lasting == Spec => Stable
<1>1. ASSUME Inv, [Next]_vars PROVE [\A w \in Widths : cache[w] # None => cache'[w] = cache[w]]_vars
  BY <1>1, Setting DEF Inv, TypeOK, Next, Step, Ask, ReadLock, Look, Build, WriteLock, Store, Return, vars, None
<1> QED
  BY <1>1, Start, Kept, PTL DEF Spec, Stable

(* nobody is stuck: whenever some request is under way, some thread can move *)
Movable(t) == \/ pc[t] \in {"look", "build", "store", "return"}
              \/ pc[t] = "read" /\ writer = None
              \/ pc[t] = "write" /\ writer = None /\ readers = {}
THEOREM NoDeadlock == Inv => ((\E t \in Threads : pc[t] # "idle") => \E t \in Threads : Movable(t))
  BY Setting DEF Inv, TypeOK, Locks, Movable, PCs, None
=============================================================================
