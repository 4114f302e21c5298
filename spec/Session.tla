------------------------------- MODULE Session -------------------------------
(* Sessions: readers process one document after the other, possibly at the same  *)
(* time, sometimes failing half-way.  What a document means must only depend on   *)
(* the document: definitions, counters, aliases, boxes, colours and files of an   *)
(* earlier or a simultaneous one are not there.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Readers, Docs, Steps, Slots, Routes, Features, Once, Declared, Kinds, Libs, Failures, Faults, Overlap, Focus, MaxBad, Emit

VARIABLES cur, hist, nd, done, focus, phase
vars == <<cur, hist, nd, done, focus, phase>>

Idle == [on |-> FALSE, id |-> 0, slot |-> 0, env |-> [f \in Features |-> 0], used |-> {}, cnt |-> [k \in Kinds |-> 0], outs |-> <<>>, n |-> 0]
Init == cur = [r \in Readers |-> Idle] /\ hist = <<>> /\ nd = 0 /\ done = <<>> /\ phase = "go"
        \* every session is about a few features, so that they meet
        /\ focus \in IF Focus = 0 THEN {Features} ELSE {{f, g} : f \in Features, g \in Features}

Ev(r, k, id, f, v) == hist' = Append(hist, [r |-> r, k |-> k, id |-> id, f |-> f, v |-> v])
Here == Len(hist) + 1
Bads == Cardinality({i \in 1..Len(hist) : hist[i].k \in {"fail", "reject"}})
Busy == {r \in Readers : cur[r].on}
MayStart(r) == phase = "go" /\ ~cur[r].on /\ nd < Docs /\ (Overlap \/ Busy = {})

Begin(r, route, slot) ==
  /\ MayStart(r) /\ \A q \in Busy : cur[q].slot # slot
  /\ cur' = [cur EXCEPT ![r] = [Idle EXCEPT !.on = TRUE, !.id = nd + 1, !.slot = slot]]
  /\ nd' = nd + 1 /\ Ev(r, "begin", nd + 1, route, slot) /\ UNCHANGED <<done, phase>>

On(r) == phase = "go" /\ cur[r].on /\ cur[r].n < Steps
C(r) == cur[r]
Def(r, f) ==
  /\ On(r) /\ (f \in Declared => C(r).env[f] = 0 /\ f \notin C(r).used)
  /\ cur' = [cur EXCEPT ![r].n = @ + 1, ![r].env[f] = IF f \in Once /\ @ # 0 THEN @ ELSE Here]
  /\ Ev(r, "def", C(r).id, f, Here) /\ UNCHANGED <<nd, done, phase>>
Use(r, f) ==
  /\ On(r)
  /\ cur' = [cur EXCEPT ![r].n = @ + 1, ![r].used = @ \cup {f}, ![r].outs = Append(@, [k |-> "use", f |-> f, at |-> Here, v |-> C(r).env[f]])]
  /\ Ev(r, "use", C(r).id, f, 0) /\ UNCHANGED <<nd, done, phase>>
Num(r, k) ==
  /\ On(r)
  /\ cur' = [cur EXCEPT ![r].n = @ + 1, ![r].cnt[k] = @ + 1, ![r].outs = Append(@, [k |-> "num", f |-> k, at |-> Here, v |-> C(r).cnt[k] + 1])]
  /\ Ev(r, "num", C(r).id, k, 0) /\ UNCHANGED <<nd, done, phase>>
End(r) ==
  /\ phase = "go" /\ cur[r].on /\ cur[r].n > 0
  /\ done' = Append(done, [id |-> C(r).id, outs |-> C(r).outs,
                           colors |-> IF "color" \in Features THEN {hist[i].v : i \in {j \in 1..Len(hist) : hist[j].id = C(r).id /\ hist[j].k = "def" /\ hist[j].f = "color"}} ELSE {}])
  /\ cur' = [cur EXCEPT ![r] = Idle] /\ Ev(r, "end", C(r).id, "", 0) /\ UNCHANGED <<nd, phase>>
\* something goes wrong inside, n calls later
Fail(r, n) ==
  /\ phase = "go" /\ cur[r].on /\ cur[r].n > 0 /\ Bads < MaxBad /\ Faults # {} /\ n \in Faults
  /\ cur' = [cur EXCEPT ![r] = Idle] /\ Ev(r, "fail", C(r).id, "", n) /\ UNCHANGED <<nd, done, phase>>
\* a call that cannot succeed
Reject(r, why) == /\ MayStart(r) /\ Bads < MaxBad /\ nd' = nd + 1 /\ Ev(r, "reject", nd + 1, why, 0) /\ UNCHANGED <<cur, done, phase>>
\* a whole document from elsewhere: its meaning is a value of its own
Lib(r, route, l) == /\ MayStart(r) /\ nd' = nd + 1 /\ Ev(r, "lib", nd + 1, route, l)
                    /\ done' = Append(done, [id |-> nd + 1, outs |-> <<[k |-> "lib", f |-> "", at |-> Here, v |-> l]>>, colors |-> {}])
                    /\ UNCHANGED <<cur, phase>>

Finish == /\ phase = "go" /\ nd = Docs /\ Busy = {} /\ phase' = "done"
          /\ (Emit => PrintT("@@" \o ToJson([hist |-> hist, done |-> done])))
          /\ UNCHANGED <<cur, hist, nd, done>>
Step == \/ \E r \in Readers :
             \/ \E p \in Routes, s \in Slots : Begin(r, p, s)
             \/ \E f \in focus : Def(r, f) \/ (f # "color" /\ Use(r, f))
             \/ \E k \in Kinds : Num(r, k)
             \/ End(r) \/ (\E n \in Faults : Fail(r, n))
             \/ \E w \in Failures : Reject(r, w)
             \/ \E p \in Routes, l \in Libs : Lib(r, p, l)
        \/ Finish
Next == Step /\ UNCHANGED focus
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* What a document yields can be told from its own text alone.                    *)
Own(id) == SelectSeq(hist, LAMBDA e : e.id = id /\ e.k \in {"def", "use", "num"})
LastDef(s, i, f) == LET D == {j \in 1..(i - 1) : s[j].k = "def" /\ s[j].f = f}
                    IN IF D = {} THEN 0 ELSE IF f \in Once THEN s[CHOOSE j \in D : \A l \in D : j <= l].v
                       ELSE s[CHOOSE j \in D : \A l \in D : l <= j].v
Meaning(s, i) == IF s[i].k = "use" THEN LastDef(s, i, s[i].f)
                 ELSE Cardinality({j \in 1..i : s[j].k = "num" /\ s[j].f = s[i].f})
Isolated == \A d \in 1..Len(done) :
  LET s == Own(done[d].id)
      I == {i \in 1..Len(s) : s[i].k # "def"}
      Nth(n) == CHOOSE i \in I : Cardinality({j \in I : j <= i}) = n
  IN \/ \E i \in 1..Len(done[d].outs) : done[d].outs[i].k = "lib"
     \/ /\ Len(done[d].outs) = Cardinality(I)
        /\ \A n \in 1..Len(done[d].outs) : done[d].outs[n].v = Meaning(s, Nth(n))
NoForeign == \A d \in 1..Len(done) : \A i \in 1..Len(done[d].outs) :
  LET o == done[d].outs[i] IN o.k = "use" /\ o.v # 0 => hist[o.v].id = done[d].id /\ o.v < o.at
=============================================================================
