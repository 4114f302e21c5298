------------------------------ MODULE Preamble -----------------------------
(* The preamble of a document: what is used and defined between \documentclass and     *)
(* \begin{document}, as it is written. `st` is the reader, which sees one atom after   *)
(* the other; what is to be found is said once more of the whole text.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, Uses, Defs, Others, Features, FocusSize, MaxDepth, Sample, Emit

VARIABLES doc, st, fr, has, focus, target, phase
vars == <<doc, st, fr, has, focus, target, phase>>

A(k, n) == [k |-> k, n |-> n]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == IF s = <<>> THEN "" ELSE s[Len(s)]

----------------------------------------------------------------------------
\* the reader: in a line comment, in a comment environment, in a definition, in a block
\* with @ as a letter (then `held` is what had been found when it began)
Start == [line |-> FALSE, env |-> FALSE, deep |-> 0, from |-> 0, at |-> 0, held |-> 0, cls |-> FALSE, done |-> FALSE, out |-> <<>>]
Found(s, i, j) == [s EXCEPT !.out = Append(@, <<i, j>>)]
Step(s, a, i) ==
  CASE s.done -> s
    [] s.line -> [s EXCEPT !.line = a.k # "nl"]
    [] a.k = "pct" -> [s EXCEPT !.line = TRUE]
    [] s.env -> [s EXCEPT !.env = a.k # "cend"]
    [] a.k = "cenv" -> [s EXCEPT !.env = TRUE]
    [] s.deep > 0 /\ a.k \in {"dopen", "wopen"} -> [s EXCEPT !.deep = @ + 1]
    [] s.deep > 1 /\ a.k = "close" -> [s EXCEPT !.deep = @ - 1]
    [] s.deep = 1 /\ a.k = "close" -> Found([s EXCEPT !.deep = 0], s.from, i)
    [] s.deep > 0 -> s
    [] a.k = "dopen" -> [s EXCEPT !.deep = 1, !.from = i]
    [] a.k \in {"def", "use"} -> Found(s, i, i)
    [] a.k = "aton" /\ s.at = 0 -> [s EXCEPT !.at = i, !.held = Len(s.out)]
    [] a.k = "atoff" /\ s.at # 0 -> Found([s EXCEPT !.out = SubSeq(@, 1, s.held), !.at = 0], s.at, i)
    \* from \documentclass on
    [] a.k = "cls" /\ ~s.cls -> [s EXCEPT !.cls = TRUE, !.out = <<>>, !.at = 0]
    [] a.k = "bgn" -> [s EXCEPT !.done = TRUE]
    [] OTHER -> s

----------------------------------------------------------------------------
\* the same, said of the whole text
Lined(d, i) == \E p \in 1..(i - 1) : /\ d[p].k = "pct" /\ \A m \in (p + 1)..(i - 1) : d[m].k # "nl"
Real(d) == LET R == {i \in 1..Len(d) : ~Lined(d, i) /\ d[i].k # "pct"} IN
           {i \in R : d[i].k # "cend" /\ ~\E p \in R : p <= i /\ d[p].k = "cenv" /\ \A m \in R : (p < m /\ m < i) => d[m].k # "cend"}
Depth(d, R, i) == Cardinality({m \in R : m <= i /\ d[m].k \in {"dopen", "wopen"}}) - Cardinality({m \in R : m <= i /\ d[m].k = "close"})
EndOf(d, R, i) == CHOOSE j \in R : j > i /\ Depth(d, R, j) < Depth(d, R, i) /\ \A m \in R : (i < m /\ m < j) => Depth(d, R, m) >= Depth(d, R, i)
Bodies(d, R) == {<<i, EndOf(d, R, i)>> : i \in {m \in R : d[m].k = "dopen" /\ \E j \in R : j > m /\ Depth(d, R, j) < Depth(d, R, m)}}
Within(i, S) == \E r \in S : r[1] < i /\ i < r[2]
Said(d) ==
  LET R0 == Real(d)  B0 == Bodies(d, R0)
      ends == {i \in R0 : d[i].k = "bgn" /\ ~Within(i, B0)}
      last == IF ends = {} THEN Len(d) + 1 ELSE CHOOSE i \in ends : \A j \in ends : i <= j
      begs == {i \in R0 : i < last /\ d[i].k = "cls" /\ ~Within(i, B0)}
      first == IF begs = {} THEN 0 ELSE CHOOSE i \in begs : \A j \in begs : i <= j
      R == {i \in R0 : first < i /\ i < last}
      B == {b \in B0 : b[1] \in R}
      T == {i \in R : ~Within(i, B) /\ \A b \in B : i # b[2]}
      ons == {i \in T : d[i].k = "aton"}
      offs == {i \in T : d[i].k = "atoff"}
      open == {i \in ons : \A j \in ons : j < i => \E o \in offs : j < o /\ o < i}
      blocks == {<<i, o>> \in open \X offs : i < o /\ \A p \in offs : p < i \/ o <= p}
  IN blocks \cup {x \in ({<<i, i>> : i \in {m \in T : d[m].k \in {"def", "use"}}} \cup {b \in B : ~Within(b[1], B)}) : ~Within(x[1], blocks)}

----------------------------------------------------------------------------
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
RECURSIVE SomeOf(_, _)
SomeOf(n, S) == IF n = 0 THEN {} ELSE LET x == RandomElement(S) IN {x} \cup SomeOf(n - 1, S \ {x})
Init == /\ doc = <<>> /\ st = Start /\ fr = <<>> /\ has = "" /\ target \in Targets
        /\ focus = (IF Sample THEN {} ELSE Features) /\ phase = (IF Sample THEN "pick" ELSE "go")
Pick == phase = "pick" /\ phase' = "go" /\ focus' = SomeOf(FocusSize, Features) /\ UNCHANGED <<doc, st, fr, has, target>>
Going == phase = "go" /\ Len(doc) < target
Here == Len(doc) + 1
Put(a) == doc' = Append(doc, a) /\ st' = Step(st, a, Here) /\ UNCHANGED <<focus, target, phase>>
Free == Going /\ ~st.line
Leaf(k, n) == Free /\ ~st.env /\ Put(A(k, n)) /\ UNCHANGED <<fr, has>>
Into(k, n) == Free /\ ~st.env /\ Len(fr) < MaxDepth /\ Put(A(k, n)) /\ fr' = Append(fr, k) /\ UNCHANGED has
Shut == phase = "go" /\ ~st.line /\ ~st.env /\ fr # <<>> /\ Put(A("close", 0)) /\ fr' = Pop(fr) /\ UNCHANGED has
NoDef == \A i \in 1..Len(fr) : fr[i] # "dopen"
Cls == Free /\ ~st.env /\ fr = <<>> /\ has = "" /\ Put(A("cls", 0)) /\ has' = "cls" /\ UNCHANGED fr
Bgn == Free /\ ~st.env /\ (fr = <<>> \/ ~NoDef) /\ Put(A("bgn", 0)) /\ has' = (IF fr = <<>> THEN "bgn" ELSE has) /\ UNCHANGED fr
On == NoDef /\ Leaf("aton", 0)
Off == NoDef /\ Leaf("atoff", 0)
Pct == Going /\ ~st.line /\ ~st.done /\ Put(A("pct", 0)) /\ UNCHANGED <<fr, has>>
Nl == phase = "go" /\ st.line /\ Put(A("nl", 0)) /\ UNCHANGED <<fr, has>>
CEnv == Free /\ ~st.env /\ ~st.done /\ fr = <<>> /\ Put(A("cenv", 0)) /\ UNCHANGED <<fr, has>>
CEnd == phase = "go" /\ ~st.line /\ st.env /\ Put(A("cend", 0)) /\ UNCHANGED <<fr, has>>
Dead(a) == Going /\ (st.line \/ st.env) /\ Put(a) /\ UNCHANGED <<fr, has>>
Finish == /\ phase = "go" /\ ~Going /\ fr = <<>> /\ ~st.line /\ ~st.env /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> st.out])))
          /\ UNCHANGED <<doc, st, fr, has, focus, target>>
In(f) == f \in focus
Next == \/ Pick
        \/ \E n \in Some(Uses) : Leaf("use", n)
        \/ \E n \in Some(Defs) : Leaf("def", n) \/ Into("dopen", n)
        \/ \E n \in Some(Others) : Leaf("oth", n)
        \/ In("wrap") /\ \E n \in Some(Others) : Into("wopen", n)
        \/ Shut \/ (Sample /\ Shut)
        \/ (Sample => Len(doc) < 8) /\ Cls
        \/ (Sample => (fr # <<>> \/ 2 * Len(doc) > target)) /\ In("bgn") /\ Bgn
        \/ In("at") /\ (On \/ Off)
        \/ (In("pct") /\ Pct) \/ Nl
        \/ (In("cenv") /\ CEnv) \/ CEnd
        \/ \E a \in Some({A("def", 1), A("use", 1), A("bgn", 0), A("cls", 0), A("dopen", 1), A("close", 0), A("aton", 0), A("atoff", 0)}) : Dead(a)
        \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Test == phase = "out"
Set(s) == {s[i] : i \in 1..Len(s)}
FindsAll == Test => Set(st.out) = Said(doc)
InOrder == \A i \in 1..(Len(st.out) - 1) : st.out[i][2] < st.out[i + 1][1]
\* what is found, between \documentclass and \begin{document}, is found again
RECURSIVE Run(_, _, _)
Run(d, i, s) == IF i > Len(d) THEN s ELSE Run(d, i + 1, Step(s, d[i], i))
RECURSIVE Flat(_, _)
Flat(d, o) == IF o = <<>> THEN <<>> ELSE SubSeq(d, Head(o)[1], Head(o)[2]) \o Flat(d, Tail(o))
Texts(d, o) == [i \in 1..Len(o) |-> SubSeq(d, o[i][1], o[i][2])]
Again == Test => LET d == <<A("cls", 0)>> \o Flat(doc, st.out) \o <<A("bgn", 0)>>  s == Run(d, 1, Start) IN
                 Texts(d, s.out) = Texts(doc, st.out)
=============================================================================
