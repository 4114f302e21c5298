------------------------------- MODULE Float -------------------------------
(* Figures, tables, algorithms and what is in them: pictures, captions, parts with     *)
(* captions of their own, boxes, diagrams and algorithms kept as written. `st` is the  *)
(* reader, which sees one atom after the other; `fr` and `items` are what was meant.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Targets, Features, FocusSize, MaxDepth, Sample, Emit

VARIABLES doc, st, fr, items, focus, target, phase
vars == <<doc, st, fr, items, focus, target, phase>>

A(k, n) == [k |-> k, n |-> n]
\* floats: 1 figure 2 figure* 3 wrapfigure 4 table 5 table* 6 algorithm 7 algorithm*
Floats == 1..7
Kind(n) == IF n < 4 THEN "figure" ELSE IF n < 6 THEN "table" ELSE "algorithm"
\* parts: 1 subfigure 2 subtable 3 minipage 4 center 5 flushed 6 part with a caption 7 without 8 a group
Parts == 1..8
\* boxes take any number of arguments before what is in them
Boxes == 1..9
\* captions: 1 plain 2 with a star 3 with a short form 4 of a part 5 of a given kind
Captions == 1..5
Raws == {"picture", "algorithmic", "overlay"}
Openers == {"float", "part", "box", "cap", "foot"}
Closer(f) == A("end" \o f.k, f.n)
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == IF s = <<>> THEN A("", 0) ELSE s[Len(s)]
Within(s, k) == \E i \in 1..Len(s) : s[i].k = k

----------------------------------------------------------------------------
\* the reader
Start == [open |-> <<>>, raw |-> "", deep |-> 0, at |-> 0, body |-> <<>>, line |-> FALSE,
          count |-> [figure |-> 0, table |-> 0, algorithm |-> 0], out |-> <<>>]
Event(t, k, n) == [t |-> t, k |-> k, n |-> n, body |-> <<>>]
Say(s, e) == [s EXCEPT !.out = Append(@, e)]
\* what opens gives something to see: floats their number, parts with captions their caption
Begin(s, a) ==
  LET s1 == [s EXCEPT !.open = Append(@, a)] IN
  CASE a.k = "float" -> LET k == Kind(a.n) IN
                        Say([s1 EXCEPT !.count[k] = @ + 1], Event("open", k, s.count[k] + 1))
    [] a.k = "part" /\ a.n = 1 -> Say(s1, Event("open", "subfigure", 0))
    [] a.k = "part" /\ a.n = 2 -> Say(s1, Event("open", "table", 0))
    [] a.k = "part" /\ a.n = 6 -> Say(s1, Event("sub", "", 0))
    [] a.k = "cap" -> Say(s1, Event("open", "caption", 0))
    [] a.k = "foot" -> Say(s1, Event("open", "footnote", 0))
    [] OTHER -> s1
End(s) ==
  LET f == Top(s.open)  s1 == [s EXCEPT !.open = Pop(@)] IN
  IF f.k \in {"float", "cap", "foot"} \/ (f.k = "part" /\ f.n < 3) THEN Say(s1, Event("close", "", 0)) ELSE s1
RawEnd(s) == Say([s EXCEPT !.raw = "", !.body = <<>>],
                 [t |-> "raw", k |-> s.raw, n |-> s.at, body |-> IF s.raw = "overlay" THEN <<>> ELSE s.body])
Step(s, a) ==
  CASE s.line -> [s EXCEPT !.line = a.k # "nl"]
    [] a.k = "pct" -> [s EXCEPT !.line = TRUE]
    [] a.k = "nl" -> s
    [] s.raw # "" /\ a.k = "end" \o s.raw /\ a.n = s.at /\ s.deep = 0 -> RawEnd(s)
    [] s.raw # "" -> [s EXCEPT !.body = Append(@, a),
                               !.deep = IF a.n # s.at THEN @ ELSE IF a.k = s.raw THEN @ + 1 ELSE IF a.k = "end" \o s.raw THEN @ - 1 ELSE @]
    [] a.k \in Raws -> [s EXCEPT !.raw = a.k, !.at = a.n, !.deep = 0]
    [] a.k \in Openers -> Begin(s, a)
    [] s.open # <<>> /\ a = Closer(Top(s.open)) -> End(s)
    [] OTHER -> Say(s, Event("w", a.k, a.n))
RECURSIVE Run(_, _)
Run(s, as) == IF as = <<>> THEN s ELSE Run(Step(s, as[1]), Tail(as))

----------------------------------------------------------------------------
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
Init == /\ doc = <<>> /\ st = Start /\ fr = <<>> /\ items = <<>>
        /\ focus = (IF Sample THEN {} ELSE Features) /\ target \in Targets /\ phase = (IF Sample THEN "pick" ELSE "go")
Pick == phase = "pick" /\ phase' = "go" /\ focus' = RandomSubset(FocusSize, Features) /\ UNCHANGED <<doc, st, fr, items, target>>
Has(f) == f \in focus
Live == phase = "go" /\ ~st.line
Going == phase = "go" /\ Len(doc) < target
Prev == IF doc = <<>> THEN "" ELSE doc[Len(doc)].k
Here == Len(doc) + 1
Last == Len(items)
Put(a) == doc' = Append(doc, a) /\ st' = Step(st, a) /\ UNCHANGED <<focus, target, phase>>
Room == Len(fr) < MaxDepth
\* fr has the raw blocks, too
Raw == fr # <<>> /\ Top(fr).k \in Raws
Norm == Live /\ ~Raw
InCap == Within(fr, "cap")
InFoot == Within(fr, "foot")
InFloat == Within(fr, "float")
FloatKind == LET fs == SelectSeq(fr, LAMBDA f : f.k = "float") IN IF fs = <<>> THEN "" ELSE Kind(fs[1].n)
AddItem(e) == items' = Append(items, e)
AddBody(a) == items' = [items EXCEPT ![Last].body = Append(@, a)]
Same == UNCHANGED items

\* parts and boxes are not left empty
Empty == fr # <<>> /\ Prev \in {"part", "box", "cap", "foot", "pct", "nl"} /\ Top(fr).k \in {"part", "box", "cap", "foot"}
Word == Norm /\ (Going \/ Empty) /\ Put(A("w", Here)) /\ UNCHANGED fr /\ AddItem(Event("w", "w", Here))
Piece(k) == Norm /\ Going /\ (k \in {"pdf", "tab"} => ~InCap /\ ~Within(fr, "box")) /\ (k = "tab" => ~InFoot) /\ Put(A(k, Here)) /\ UNCHANGED fr /\ AddItem(Event("w", k, Here))
Float(n) == /\ Norm /\ Going /\ (\A i \in 1..Len(fr) : fr[i].k = "part" /\ fr[i].n \in 3..5)
            /\ LET num == Cardinality({i \in 1..Last : items[i].t = "open" /\ items[i].k = Kind(n) /\ items[i].n # 0}) IN
               Put(A("float", n)) /\ fr' = Append(fr, A("float", n)) /\ AddItem(Event("open", Kind(n), num + 1))
Part(n) == /\ Norm /\ Going /\ Room /\ ~InCap /\ ~InFoot
           /\ (n = 1 => FloatKind = "figure") /\ (n = 2 => FloatKind = "table") /\ (n \in {6, 7} => InFloat)
           /\ (n = 8 => Has("group"))
           /\ Put(A("part", n)) /\ fr' = Append(fr, A("part", n))
           /\ IF n = 1 THEN AddItem(Event("open", "subfigure", 0)) ELSE IF n = 2 THEN AddItem(Event("open", "table", 0)) ELSE IF n = 6 THEN AddItem(Event("sub", "", 0)) ELSE Same
Box(n) == Norm /\ Going /\ Room /\ Has("box") /\ Put(A("box", n)) /\ fr' = Append(fr, A("box", n)) /\ Same
Cap(n) == /\ Norm /\ Going /\ Room /\ ~InCap /\ ~InFoot /\ ~Within(fr, "box") /\ InFloat
          /\ Put(A("cap", n)) /\ fr' = Append(fr, A("cap", n)) /\ AddItem(Event("open", "caption", 0))
Foot == Norm /\ Going /\ Room /\ Has("foot") /\ ~InFoot /\ Put(A("foot", 0)) /\ fr' = Append(fr, A("foot", 0)) /\ AddItem(Event("open", "footnote", 0))
\* as written
Block(k, n) == /\ Norm /\ Going /\ ~InCap /\ ~InFoot /\ (k = "picture" => Has("picture")) /\ (k = "algorithmic" => Has("alg") /\ ~Within(fr, "box")) /\ (k = "overlay" => Has("overlay"))
               /\ Put(A(k, n)) /\ fr' = Append(fr, A(k, n)) /\ AddItem([t |-> "raw", k |-> k, n |-> n, body |-> <<>>])
Inside(k) == Live /\ Going /\ Raw /\ Put(A(k, Here)) /\ UNCHANGED fr /\ IF Top(fr).k = "overlay" THEN Same ELSE AddBody(A(k, Here))
\* a picture in a picture
Again(n) == /\ Live /\ Going /\ Raw /\ Room /\ Top(fr).k = "picture" /\ Has("again")
            /\ Put(A("picture", n)) /\ fr' = Append(fr, A("picture", n)) /\ AddBody(A("picture", n))
ShutRaw == /\ Live /\ Raw
           /\ Put(Closer(Top(fr))) /\ fr' = Pop(fr)
           /\ IF Len(fr) > 1 /\ fr[Len(fr) - 1].k \in Raws THEN AddBody(Closer(Top(fr))) ELSE Same
Shut == /\ Norm /\ fr # <<>> /\ ~Empty
        /\ Put(Closer(Top(fr))) /\ fr' = Pop(fr)
        /\ LET f == Top(fr) IN IF f.k \in {"float", "cap", "foot"} \/ (f.k = "part" /\ f.n < 3) THEN AddItem(Event("close", "", 0)) ELSE Same
Comment == Live /\ Going /\ Has("comment") /\ Put(A("pct", 0)) /\ UNCHANGED <<fr, items>>
NewLine == phase = "go" /\ (Going \/ st.line) /\ Prev # "nl" /\ Put(A("nl", 0)) /\ UNCHANGED <<fr, items>>
Dead(a) == phase = "go" /\ st.line /\ Going /\ Put(a) /\ UNCHANGED <<fr, items>>
Finish == /\ Live /\ ~Going /\ fr = <<>> /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> st.out])))
          /\ UNCHANGED <<doc, st, fr, items, focus, target>>

Short == Sample /\ Shut
Next == \/ Pick \/ Word \/ Foot \/ Shut \/ Short \/ ShutRaw \/ Comment \/ NewLine \/ Finish
        \/ \E k \in Some({"pic", "page", "pdf", "math", "tab"} \cap (focus \cup {"pic"})) : Piece(k)
        \/ (Sample /\ Piece("pic"))
        \/ \E n \in Some(Floats) : Float(n)
        \/ \E n \in Some(Parts) : Part(n)
        \/ \E n \in Some(Boxes) : Box(n)
        \/ \E n \in Some(Captions) : Cap(n)
        \/ \E k \in Some(Raws), n \in Some(1..2) : Block(k, n)
        \/ \E k \in Some({"draw", "say", "group", "space", "amp", "row", "mac", "w"}) : Inside(k)
        \/ \E n \in Some(1..2) : Again(n)
        \/ \E k \in Some({"w", "pic", "cap", "endcap", "float", "endfloat", "endpicture", "endbox", "pct"}) : Dead(A(k, 1))
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == phase = "out"
ReadsWhatWasMeant == Done => st.out = items
SameNesting == st.open = SelectSeq(fr, LAMBDA f : f.k \notin Raws) /\ (st.raw # "") = Raw
ReadsAgain == Done => Run(Start, doc) = st
\* every float has its own number
Numbered == \A k \in {"figure", "table", "algorithm"} : LET os == SelectSeq(st.out, LAMBDA e : e.t = "open" /\ e.k = k /\ e.n # 0)
                                                      IN \A i \in 1..Len(os) : os[i].n = i
=============================================================================
