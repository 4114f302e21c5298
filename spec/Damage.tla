------------------------------ MODULE Damage -------------------------------
(* Damaged documents: what was opened is not always closed, what was not opened is     *)
(* closed, things overlap, the file ends anywhere. `pend` and `pairs` are the reader's: *)
(* it pairs every closer with the last opener of its kind; of two pairs that cross, the *)
(* one that opens first stands. `fr` and `meant` are the writer's.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, Kinds, FocusSize, MaxDepth, MaxBad, Extras, Sample, Emit, Deep

VARIABLES doc, pend, pairs, fr, meant, bad, focus, target, phase
vars == <<doc, pend, pairs, fr, meant, bad, focus, target, phase>>

A(k, n) == [k |-> k, n |-> n]
\* environments 1..19, arguments of commands and groups 20..39, \begingroup 40
Envs == 1..19
Braces == 20..39
AllKinds == 1..15 \cup 20..33 \cup {40}
Class(n) == IF n \in Braces THEN 20 ELSE n
\* 2 center 7 minipage 13 small 14 flushright: give what is in them
Plain == {2, 7, 13, 14, 20, 26, 29, 31, 40}
\* 21 bold 22 italic 28 coloured 30 underlined
Styles == {21, 22, 28, 30}
Seen == AllKinds \ (Plain \cup Styles)
\* what is left of an environment that does not end; 6 foo is unknown, 9 lists and 10 tables have then nothing in them
Left == (Seen \cap Envs) \ {6, 9, 10}
\* headings 25 32 33, and things that stand by themselves
Outer == {3, 8, 11, 12, 25, 33}
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == s[Len(s)]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

----------------------------------------------------------------------------
\* the reader: one atom after the other
LastOf(p, c) == LET I == {i \in 1..Len(p) : p[i].c = c} IN
                IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
Reads(a) == LET here == Len(doc) + 1 IN
  CASE a.k = "open" -> pend' = Append(pend, [c |-> Class(a.n), i |-> here]) /\ UNCHANGED pairs
    [] a.k = "close" -> LET l == LastOf(pend, a.n) IN
                        IF l = 0 THEN UNCHANGED <<pend, pairs>>
                        ELSE pairs' = pairs \cup {<<pend[l].i, here>>} /\ pend' = Without(pend, l)
    [] OTHER -> UNCHANGED <<pend, pairs>>
\* of pairs that cross, the one that opens first stands
RECURSIVE Stand(_, _)
Stand(todo, done) ==
  IF todo = {} THEN done
  ELSE LET p == CHOOSE x \in todo : \A y \in todo : x[1] <= y[1] IN
       Stand(todo \ {p}, IF \E q \in done : q[1] < p[1] /\ p[1] < q[2] /\ q[2] < p[2] THEN done ELSE done \cup {p})
Event(t, n, s) == [t |-> t, n |-> n, s |-> s]
At(d, live, i) ==
  CASE d[i].k = "open" -> IF \E p \in live : p[1] = i THEN (IF d[i].n \in Seen THEN <<Event("open", d[i].n, {})>> ELSE <<>>)
                          ELSE IF d[i].n \in Left THEN <<Event("open", d[i].n, {}), Event("close", d[i].n, {})>> ELSE <<>>
    [] d[i].k = "close" -> LET P == {p \in live : p[2] = i /\ d[p[1]].n \in Seen} IN
                           IF P = {} THEN <<>> ELSE <<Event("close", d[(CHOOSE p \in P : TRUE)[1]].n, {})>>
    [] d[i].k \in {"w", "math"} -> <<Event(d[i].k, d[i].n, {d[p[1]].n : p \in {q \in live : q[1] < i /\ i < q[2]}} \cap Styles)>>
    [] OTHER -> <<>>
RECURSIVE Events(_, _, _)
Events(d, live, i) == IF i > Len(d) THEN <<>> ELSE At(d, live, i) \o Events(d, live, i + 1)
Out == Events(doc, Stand(pairs, {}), 1)
Lost == {i \in 1..Len(doc) : doc[i].k = "open" /\ \A p \in Stand(pairs, {}) : p[1] # i}

----------------------------------------------------------------------------
\* the same, said of the document alone: what opens first is looked at first, and ends
\* where as many of its kind have been closed as opened
Cls(a) == IF a.k = "open" THEN Class(a.n) ELSE a.n
Count(d, k, c, i, j) == Cardinality({m \in i..j : d[m].k = k /\ Cls(d[m]) = c})
Ends(d, i, hi) == {j \in (i + 1)..hi : d[j].k = "close" /\ Cls(d[j]) = Class(d[i].n)
                                       /\ Count(d, "open", Cls(d[j]), i, j) = Count(d, "close", Cls(d[j]), i, j)}
RECURSIVE Regions(_, _, _)
Regions(d, lo, hi) ==
  IF lo > hi THEN {}
  ELSE IF d[lo].k # "open" THEN Regions(d, lo + 1, hi)
  ELSE LET E == Ends(d, lo, hi) IN
       IF E = {} THEN Regions(d, lo + 1, hi)
       ELSE LET j == CHOOSE x \in E : \A y \in E : x <= y IN
            {<<lo, j>>} \cup Regions(d, lo + 1, j - 1) \cup Regions(d, j + 1, hi)
Read(d) == Events(d, Regions(d, 1, Len(d)), 1)

----------------------------------------------------------------------------
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
RECURSIVE SomeKinds(_, _)
SomeKinds(n, S) == IF n = 0 THEN {} ELSE LET x == RandomElement(S) IN {x} \cup SomeKinds(n - 1, S \ {x})
Init == /\ doc = <<>> /\ pend = <<>> /\ pairs = {} /\ fr = <<>> /\ meant = {} /\ bad = 0
        /\ focus = (IF Sample THEN {} ELSE Kinds) /\ target \in Targets /\ phase = (IF Sample THEN "pick" ELSE "go")
Pick == phase = "pick" /\ phase' = "go" /\ focus' = SomeKinds(FocusSize, Kinds) /\ UNCHANGED <<doc, pend, pairs, fr, meant, bad, target>>
Live == phase = "go"
Going == Live /\ Len(doc) < target
Here == Len(doc) + 1
Prev == IF doc = <<>> THEN A("", 0) ELSE doc[Len(doc)]
\* words keep what is opened or closed by mistake apart from arguments of others
Must == Prev.k \in {"open", "stray", "hid"} \/ (Prev.k = "close" /\ bad > 0)
Free == Going /\ ~Must
Put(a) == doc' = Append(doc, a) /\ Reads(a) /\ UNCHANGED <<focus, target, phase>>
Word == (Going \/ Must) /\ Live /\ Put(A("w", Here)) /\ UNCHANGED <<fr, meant, bad>>
Leaf(k) == Free /\ (k = "verb" => \A i \in 1..Len(pend) : pend[i].c # 20) /\ Put(A(k, Here)) /\ UNCHANGED <<fr, meant, bad>>
Open(n) == /\ Free /\ Len(fr) < MaxDepth /\ (n \in Outer => fr = <<>>)
           /\ Put(A("open", n)) /\ fr' = Append(fr, [n |-> n, i |-> Here]) /\ UNCHANGED <<meant, bad>>
Shut == /\ Live /\ ~Must /\ fr # <<>> /\ Put(A("close", Class(Top(fr).n)))
        /\ fr' = Pop(fr) /\ meant' = meant \cup {<<Top(fr).i, Here>>} /\ UNCHANGED bad
\* damage
Hurt == bad < MaxBad /\ bad' = bad + 1
Forget == Live /\ ~Must /\ fr # <<>> /\ Hurt /\ fr' = Pop(fr) /\ UNCHANGED <<doc, pend, pairs, meant, focus, target, phase>>
Stray(n) == Free /\ Hurt /\ Put(A("close", Class(n))) /\ UNCHANGED <<fr, meant>>
\* the file ends here, perhaps within a command
Cut(k) == /\ Live /\ ~Must /\ Hurt /\ doc # <<>> /\ Put(A("cut", k)) /\ fr' = <<>> /\ UNCHANGED meant
IsCut == Prev.k = "cut"
Finish == /\ Live /\ (IsCut \/ (~Going /\ fr = <<>> /\ ~Must)) /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> Out, bad |-> bad, lost |-> Lost])))
          /\ UNCHANGED <<doc, pend, pairs, fr, meant, bad, focus, target>>

Short == Sample /\ Shut
Again == Sample /\ Len(doc) % 3 = 0 /\ Word
Next == \/ Pick
        \/ ~IsCut /\ (\/ Word \/ Again \/ Shut \/ Short \/ Forget
                      \/ \E n \in Some(focus) : Open(n)
                      \/ \E n \in Some(focus) : Stray(n)
                      \/ \E k \in Some(Extras) : Leaf(k)
                      \/ \E k \in Some(0..99) : (Sample => Len(doc) > target - 4) /\ (Sample \/ k = 0) /\ Cut(k))
        \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Ready == phase = "out"
Test == Ready \/ Deep
Now == Stand(pairs, {})
\* reading one after the other finds what is to be found
ReadsTheSame == Test => Now = Regions(doc, 1, Len(doc))
Nested == Test => \A p, q \in Now : ~(p[1] < q[1] /\ q[1] < p[2] /\ p[2] < q[2])
\* without damage, everything ends where it was meant to
AsMeant == (Test /\ bad = 0) => Now = meant
\* every word is there, once, in order
Words(es) == SelectSeq(es, LAMBDA e : e.t \in {"w", "math"})
Kept == Test => LET ws == Words(Out)  as == SelectSeq(doc, LAMBDA a : a.k \in {"w", "math"}) IN
                Len(ws) = Len(as) /\ \A i \in 1..Len(ws) : ws[i].n = as[i].n
\* what closes nothing changes nothing
Strays == {i \in 1..Len(doc) : doc[i].k = "close" /\ \A p \in pairs : p[2] # i}
Neutral == (Test /\ Deep) => \A i \in Strays : Read(Without(doc, i)) = Read(doc)
\* what is wrong within something that ends stays in it
Around(d, p) == SubSeq(d, 1, p[1]) \o SubSeq(d, p[2], Len(d))
AllShut(i) == \A m \in 1..i : doc[m].k = "open" => \E q \in Now : q[1] = m /\ q[2] <= i
Contained == (Test /\ Deep) => \A p \in Now : AllShut(p[1] - 1) =>
               LET B == {q \in Now : q[2] <= p[1]}  C == {q \in Now : q[1] >= p[2]} IN
               Read(Around(doc, p)) = Events(SubSeq(doc, 1, p[1] - 1), B, 1) \o
                 (IF doc[p[1]].n \in Seen THEN <<Event("open", doc[p[1]].n, {}), Event("close", doc[p[1]].n, {})>> ELSE <<>>) \o
                 Read(SubSeq(doc, p[2] + 1, Len(doc)))
\* what is read of a beginning of the document that leaves nothing open stays
Steady == (Test /\ Deep) => \A i \in 1..Len(doc) :
            (\A p \in Now : p[1] > i \/ p[2] <= i) =>
              LET e == Read(SubSeq(doc, 1, i)) IN SubSeq(Read(doc), 1, Len(e)) = e
=============================================================================
