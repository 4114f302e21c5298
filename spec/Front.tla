------------------------------- MODULE Front -------------------------------
(* Front matter: titles, authors and what separates them, affiliations, addresses,     *)
(* e-mail addresses, thanks, keywords, abstracts, dates, before the document begins or *)
(* in it. `st` is the reader, which sees one atom after the other; `fr` is the writer's *)
(* stack; what is to be found is said once more of the whole document.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, Kinds, Leaves, FocusSize, MaxDepth, Sample, Emit

VARIABLES doc, st, fr, focus, target, phase
vars == <<doc, st, fr, focus, target, phase>>

A(k, n) == [k |-> k, n |-> n]
\* 1 title 2 author 3 affiliation 4 address 5 e-mail 6 thanks 7 keywords 8 abstract 9 date
\* 10 a group 11 emphasis 12 title page 13 section
Tops == {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13}
Inside(n) == CASE n = 1 -> {6, 10, 11}
               [] n = 2 -> {3, 4, 5, 6, 10, 11}
               [] n \in {3, 4} -> {5, 6, 10, 11}
               [] n = 5 -> {10}
               [] n = 6 -> {10, 11}
               [] n = 7 -> {10, 11}
               [] n = 8 -> {6, 10, 11}
               [] n = 9 -> {6, 10, 11}
               [] n = 10 -> {5, 6, 10, 11}
               [] n = 11 -> {6, 10, 11}
               [] n = 12 -> Tops \ {12, 13}
               [] OTHER -> {6, 10, 11}
\* (a title page is not told from an unknown environment, which yields nothing if nothing is in it)
Seen == {1, 2, 3, 4, 5, 6, 7, 8, 13}
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == IF s = <<>> THEN 0 ELSE s[Len(s)]
Has(s, n) == \E i \in 1..Len(s) : s[i] = n

----------------------------------------------------------------------------
\* the reader
Start == [open |-> <<>>, line |-> FALSE, fresh |-> FALSE, out |-> <<>>]
Event(t, n, s) == [t |-> t, n |-> n, s |-> s]
Lost(s) == Has(s.open, 9)
\* something is seen: an author whose name has not begun begins
Say(s, e) == IF Lost(s) THEN s
             ELSE [s EXCEPT !.out = @ \o (IF s.fresh THEN <<Event("part", 0, FALSE)>> ELSE <<>>) \o <<e>>, !.fresh = FALSE]
Step(s, a) ==
  CASE s.line -> [s EXCEPT !.line = a.k # "nl"]
    [] a.k = "pct" -> [s EXCEPT !.line = TRUE]
    [] a.k = "open" -> LET s1 == IF a.n \in Seen THEN Say(s, Event("open", a.n, FALSE)) ELSE s IN
                       [s1 EXCEPT !.open = Append(@, a.n), !.fresh = IF a.n = 2 THEN TRUE ELSE @]
    [] a.k = "close" -> LET n == Top(s.open)  s1 == [s EXCEPT !.open = Pop(@), !.fresh = IF n = 2 THEN FALSE ELSE @] IN
                        IF n \in Seen THEN [s1 EXCEPT !.out = IF Lost(s) THEN @ ELSE Append(@, Event("close", n, FALSE))] ELSE s1
    [] a.k = "and" -> [s EXCEPT !.fresh = TRUE]
    [] a.k \in {"w", "math"} -> Say(s, Event(a.k, a.n, Has(s.open, 11)))
    [] OTHER -> s

----------------------------------------------------------------------------
\* the same, said of the whole document
Commented(d, i) == \E p \in 1..(i - 1) : d[p].k = "pct" /\ \A m \in (p + 1)..(i - 1) : d[m].k # "nl"
Real(d) == {i \in 1..Len(d) : ~Commented(d, i) /\ d[i].k # "pct"}
Depth(d, R, i) == Cardinality({m \in R : m <= i /\ d[m].k = "open"}) - Cardinality({m \in R : m <= i /\ d[m].k = "close"})
EndOf(d, R, i) == CHOOSE j \in R : j > i /\ Depth(d, R, j) < Depth(d, R, i) /\ \A m \in R : (i < m /\ m < j) => Depth(d, R, m) >= Depth(d, R, i)
Regions(d, n) == LET R == Real(d) IN {<<i, EndOf(d, R, i)>> : i \in {m \in R : d[m].k = "open" /\ d[m].n = n}}
In(i, S) == \E r \in S : r[1] < i /\ i < r[2]
Shown(d) == LET D == Regions(d, 9) IN {i \in Real(d) : ~In(i, D)}
\* parts of an author: what stands between separators, if there is something in it
Pieces(d, r) == LET cuts == {r[1], r[2]} \cup {m \in Real(d) : r[1] < m /\ m < r[2] /\ d[m].k = "and"} IN
                {c \in cuts : c # r[2] /\ LET next == CHOOSE x \in cuts : x > c /\ \A y \in cuts : y > c => x <= y IN
                              \E m \in Shown(d) : c < m /\ m < next /\ (d[m].k \in {"w", "math"} \/ (d[m].k = "open" /\ d[m].n \in Seen))}

----------------------------------------------------------------------------
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
RECURSIVE SomeKinds(_, _)
SomeKinds(n, S) == IF n = 0 THEN {} ELSE LET x == RandomElement(S) IN {x} \cup SomeKinds(n - 1, S \ {x})
Init == /\ doc = <<>> /\ st = Start /\ fr = <<>> /\ target \in Targets
        /\ focus = (IF Sample THEN {} ELSE Kinds) /\ phase = (IF Sample THEN "pick" ELSE "pre")
Pick == phase = "pick" /\ phase' = "pre" /\ focus' = {2} \cup SomeKinds(FocusSize, Kinds) /\ UNCHANGED <<doc, st, fr, target>>
Live == phase \in {"pre", "body"}
Going == Live /\ Len(doc) < target
Here == Len(doc) + 1
Put(a) == doc' = Append(doc, a) /\ st' = Step(st, a) /\ UNCHANGED <<focus, target>>
InLine == st.line
Text == fr # <<>> \/ phase = "body"
NotBare == fr # <<12>>
Word(k) == Going /\ Text /\ (k = "math" => ~Has(fr, 5)) /\ Put(A(k, Here)) /\ UNCHANGED <<fr, phase>>
Open(n) == /\ Going /\ ~InLine /\ Len(fr) < MaxDepth
           /\ IF fr = <<>> THEN n \in Tops /\ (phase = "pre" => n \notin {12, 13}) ELSE n \in Inside(Top(fr))
           /\ Put(A("open", n)) /\ fr' = Append(fr, n) /\ UNCHANGED phase
Shut == /\ Live /\ ~InLine /\ fr # <<>> /\ Put(A("close", Top(fr))) /\ fr' = Pop(fr) /\ UNCHANGED phase
And == Going /\ ~InLine /\ Top(fr) = 2 /\ Put(A("and", Here)) /\ UNCHANGED <<fr, phase>>
\* \\ ends a line, \maketitle gives nothing
Break == Going /\ ~InLine /\ fr # <<>> /\ Top(fr) \notin {5, 12} /\ Put(A("break", Here)) /\ UNCHANGED <<fr, phase>>
Make == Going /\ ~InLine /\ phase = "body" /\ fr \in {<<>>, <<12>>} /\ Put(A("make", 0)) /\ UNCHANGED <<fr, phase>>
Pct == Going /\ ~InLine /\ Put(A("pct", 0)) /\ UNCHANGED <<fr, phase>>
Nl == Live /\ InLine /\ Put(A("nl", 0)) /\ UNCHANGED <<fr, phase>>
Dead(a) == Going /\ InLine /\ Put(a) /\ UNCHANGED <<fr, phase>>
Begin == Live /\ ~InLine /\ phase = "pre" /\ fr = <<>> /\ Put(A("begin", 0)) /\ phase' = "body" /\ UNCHANGED fr
Finish == /\ phase = "body" /\ ~Going /\ ~InLine /\ fr = <<>> /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> st.out])))
          /\ UNCHANGED <<doc, st, fr, focus, target>>

Next == \/ Pick
        \/ ~InLine /\ (\/ \E k \in Some({"w", "math"} \cap Leaves) : Word(k)
                       \/ ("w" \in Leaves /\ Sample /\ Word("w"))
                       \/ \E n \in Some(focus) : Open(n)
                       \/ \E n \in Some(focus \cap Inside(Top(fr))) : fr # <<>> /\ Sample /\ Open(n)
                       \/ Shut \/ And
                       \/ ("break" \in Leaves /\ Break) \/ ("make" \in Leaves /\ Make) \/ ("pct" \in Leaves /\ Pct)
                       \/ (Sample => RandomElement(1..4) = 1 \/ ~Going) /\ Begin)
        \/ Nl
        \/ \E a \in Some({A("w", Here), A("and", Here), A("open", 2), A("close", 2), A("begin", 0)}) : Dead(a)
        \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Test == phase = "out"
Events(t) == SelectSeq(st.out, LAMBDA e : e.t = t)
\* what is shown is there, once, in order, and nothing else
Kept == Test => LET S == Shown(doc)
                    want == SelectSeq([i \in 1..Len(doc) |-> IF i \in S THEN doc[i] ELSE A("", 0)],
                                      LAMBDA a : a.k \in {"w", "math"} \/ (a.k = "open" /\ a.n \in Seen))
                    got == SelectSeq(st.out, LAMBDA e : e.t \in {"w", "math", "open"}) IN
                Len(want) = Len(got) /\ \A i \in 1..Len(got) : got[i].t = want[i].k /\ got[i].n = want[i].n
Emphasised == Test => LET E == Regions(doc, 11) IN
                \A i \in 1..Len(st.out) : st.out[i].t \in {"w", "math"} => (st.out[i].s <=> In(st.out[i].n, E))
\* authors and parts of authors
Separated == Test => LET au == {r \in Regions(doc, 2) : r[1] \in Shown(doc)} IN
               Len(Events("part")) = Cardinality(UNION {{<<r, c>> : c \in Pieces(doc, r)} : r \in au})
\* tokens nest as they were written
RECURSIVE Level(_, _)
Level(es, i) == IF i = 0 THEN 0 ELSE Level(es, i - 1) + (IF es[i].t = "open" THEN 1 ELSE IF es[i].t = "close" THEN -1 ELSE 0)
Balanced == Test => Level(st.out, Len(st.out)) = 0 /\ \A i \in 1..Len(st.out) : Level(st.out, i) >= 0
\* no part is empty
Full == Test => \A i \in 1..Len(st.out) : st.out[i].t = "part" => i < Len(st.out) /\ st.out[i + 1].t \in {"w", "math", "open"}
=============================================================================
