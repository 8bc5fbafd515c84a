----------------------------- MODULE KeyMachine -----------------------------
(* Tensor words as a client of the library sees them: registers holding      *)
(* words and registers holding key iterators, and one operation per public   *)
(* call.  Effect(s, e) is the meaning of call e in state s.                  *)
EXTENDS Words, FiniteSets, TLC

NoIter  == [st |-> "none", w |-> <<>>]
Done    == [st |-> "done", w |-> <<>>]
Run(w)  == [st |-> "run", w |-> w]

(* The outcome of a call: "ok", "panic" (the call has to be refused) or      *)
(* "any" (nothing is promised, e.g. a bound that no machine word holds).     *)
Ok(s, res)  == [out |-> "ok", s |-> s, res |-> res]
Refused(s)  == [out |-> "panic", s |-> s, res |-> <<>>]
Free(s)     == [out |-> "any", s |-> s, res |-> <<>>]

PutKey(s, r, w)  == [s EXCEPT !.keys[r] = w]
PutIter(s, i, x) == [s EXCEPT !.its[i] = x]

Big(s, b) == IF Fits64(b) THEN Ok(s, b) ELSE Free(s)

AfterNext(n, w) == IF IsLast(n, w) THEN Done ELSE Run(Succ(n, w))

Effect(s, e) ==
    LET n == s.n
        md == MaxDepth(n)
    IN
    CASE e.op = "new"     -> Ok(PutKey(s, e.r, <<>>), <<>>)
      [] e.op = "letter"  -> Ok(PutKey(s, e.r, <<e.l>>), <<>>)
      [] e.op = "letters" -> IF Len(e.w) <= md THEN Ok(PutKey(s, e.r, e.w), <<>>) ELSE Refused(s)
      [] e.op = "push"    -> IF Len(s.keys[e.r]) < md
                             THEN Ok(PutKey(s, e.r, <<e.l>> \o s.keys[e.r]), <<>>) ELSE Free(s)
      [] e.op = "copy"    -> Ok(PutKey(s, e.r, s.keys[e.a]), <<>>)
      [] e.op = "cat"     -> IF Len(s.keys[e.a]) + Len(s.keys[e.b]) <= md
                             THEN Ok(PutKey(s, e.r, s.keys[e.a] \o s.keys[e.b]), <<>>)
                             ELSE Refused(s)
      [] e.op = "read"    -> LET w == s.keys[e.a] IN
                             Ok(s, <<Len(w), Reversed(w), Reversed(w), w>>)
      [] e.op = "eq"      -> Ok(s, <<IF s.keys[e.a] = s.keys[e.b] THEN 1 ELSE 0>>)
      [] e.op = "cmp"     -> LET c == Cmp(s.keys[e.a], s.keys[e.b])
                                 big == ~(Fits64(Index(n, s.keys[e.a])) /\ Fits64(Index(n, s.keys[e.b])))
                             IN Ok(s, <<c, IF big /\ "res" \in DOMAIN e THEN e.res[2] ELSE c>>)  \* directly; by index
      [] e.op = "deg"     -> Ok(s, <<Len(s.keys[e.a])>>)
      [] e.op = "maxd"    -> Ok(s, <<md, md>>)
      [] e.op = "idx"     -> Big(s, Index(n, s.keys[e.a]))
      [] e.op = "at"      -> LET w == WordAt(n, e.i) IN
                             IF Len(w) <= md THEN Ok(PutKey(s, e.r, w), <<>>) ELSE Free(s)
      [] e.op = "start"   -> Big(s, Start(n, e.d))
      [] e.op = "idxdeg"  -> LET d == DegreeOfIndex(n, e.i) IN
                             IF Fits64(Start(n, d + 1)) THEN Ok(s, <<d>>) ELSE Free(s)
      [] e.op = "dimkey"  -> Big(s, Start(n, Len(s.keys[e.a]) + 1))
      [] e.op = "dimidx"  -> Big(s, Start(n, DegreeOfIndex(n, e.i) + 1))
      [] e.op = "fmt"     -> LET t == RenderWord(s.keys[e.a]) IN Ok(s, <<t, t>>)
      [] e.op = "iter"    -> Ok(PutIter(s, e.j, Run(<<>>)), <<>>)
      [] e.op = "iterfrom"-> Ok(PutIter(s, e.j, Run(s.keys[e.a])), <<>>)
      [] e.op = "next"    -> LET x == s.its[e.j] IN
                             CASE x.st = "run"  -> Ok(PutKey(PutIter(s, e.j, AfterNext(n, x.w)), e.r, x.w), <<1>>)
                               [] x.st = "done" -> Ok(s, <<0>>)
                               [] OTHER         -> Free(s)
      \* the word after e.x others
      [] e.op = "nth"     -> LET x == s.its[e.j]
                                 there == BAdd(Index(n, x.w), BOf(e.x))
                                 w == WordAt(n, there)
                             IN
                             CASE x.st = "run" /\ BCmp(there, Start(n, md + 1)) < 0
                                      -> Ok(PutKey(PutIter(s, e.j, AfterNext(n, w)), e.r, w), <<1>>)
                               [] x.st \in {"run", "done"} -> Ok(PutIter(s, e.j, Done), <<0>>)
                               [] OTHER -> Free(s)
      \* bounds for the number of words still to come, the upper one may be missing
      [] e.op = "hint"    -> LET x == s.its[e.j]
                                 left == IF x.st = "run" THEN BSub(Start(n, md + 1), Index(n, x.w)) ELSE <<>>
                             IN
                             IF x.st = "none" THEN Free(s)
                             ELSE Ok(s, IF /\ BCmp(e.res[1], left) <= 0
                                           /\ (e.res[2] = <<-1>> \/ BCmp(left, e.res[2]) <= 0)
                                        THEN e.res ELSE <<>>)
      \* e.x times next, the words are not looked at: how many there were
      [] e.op = "skip"    -> LET x == s.its[e.j]
                                 all == Start(n, md + 1)
                                 left == BSub(all, Index(n, x.w))
                                 there == BAdd(Index(n, x.w), BOf(e.x))
                             IN
                             CASE x.st = "run" /\ BCmp(there, all) < 0
                                      -> Ok(PutIter(s, e.j, Run(WordAt(n, there))), <<e.x>>)
                               [] x.st = "run" -> Ok(PutIter(s, e.j, Done), <<BToInt(left, 1)>>)
                               [] x.st = "done" -> Ok(s, <<0>>)
                               [] OTHER -> Free(s)

StateOf(n, nk, ni) == [n |-> n, keys |-> [r \in 1..nk |-> <<>>], its |-> [j \in 1..ni |-> NoIter]]
=============================================================================
