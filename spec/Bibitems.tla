------------------------------ MODULE Bibitems ------------------------------
(* Lists of \bibitem, atom by atom: labels end at their own bracket, items at the *)
(* next \bibitem, comments at the end of their line; definitions made before the  *)
(* first item take effect in the items. `st` is the reader, `items` what the      *)
(* writer meant.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Targets, MaxLists, Features, FocusSize, Sample, Emit

VARIABLES doc, st, items, focus, target, phase
vars == <<doc, st, items, focus, target, phase>>

A(k, n) == [k |-> k, n |-> n]
Styled == {"em{", "bf{"}
Opens == {"{"} \cup Styled

----------------------------------------------------------------------------
\* the reader. mode: "out" of the lists, "pre": before the first item, "head": after \bibitem,
\* "label", "key", "body"; line: in a comment
Start == [mode |-> "out", line |-> FALSE, open |-> <<>>, key |-> 0, label |-> <<>>, has |-> FALSE, body |-> <<>>, list |-> 0,
          mac |-> 0, out |-> <<>>, text |-> <<>>]
Flush(s) == IF s.key = 0 THEN s
            ELSE [s EXCEPT !.out = Append(@, [key |-> s.key, label |-> s.label, has |-> s.has, body |-> s.body, list |-> s.list]),
                           !.key = 0, !.label = <<>>, !.has = FALSE, !.body = <<>>]
Styles(s) == {s.open[i] : i \in 1..Len(s.open)} \cap Styled
See(s, a) == [s EXCEPT !.body = Append(@, [k |-> a.k, n |-> a.n, em |-> "em{" \in Styles(s), bf |-> "bf{" \in Styles(s)])]
Step(s, a) ==
  CASE s.line -> [s EXCEPT !.line = a.k # "nl"]
    [] a.k = "pct" -> [s EXCEPT !.line = TRUE]
    [] a.k = "nl" -> s
    [] s.mode = "out" -> CASE a.k = "begin" -> [s EXCEPT !.mode = "pre", !.list = @ + 1]
                           [] a.k = "w" -> [s EXCEPT !.text = Append(@, a)]
                           [] OTHER -> s
    [] s.mode = "pre" -> CASE a.k = "item" -> [s EXCEPT !.mode = "head"]
                           [] a.k = "def" -> [s EXCEPT !.mac = a.n]
                           [] a.k = "prov" -> [s EXCEPT !.mac = IF @ = 0 THEN a.n ELSE @]
                           [] OTHER -> s                      \* also definitions of what is there already
    [] s.mode = "head" -> IF a.k = "[" THEN [s EXCEPT !.mode = "label", !.has = TRUE] ELSE [s EXCEPT !.mode = "body", !.key = a.n]
    [] s.mode = "label" -> CASE a.k = "]" /\ s.open = <<>> -> [s EXCEPT !.mode = "key"]
                             [] a.k \in Opens -> [s EXCEPT !.open = Append(@, a.k), !.label = Append(@, a)]
                             [] a.k = "}" -> [s EXCEPT !.open = SubSeq(@, 1, Len(@) - 1), !.label = Append(@, a)]
                             [] OTHER -> [s EXCEPT !.label = Append(@, a)]
    [] s.mode = "key" -> [s EXCEPT !.mode = "body", !.key = a.n]
    [] s.mode = "body" -> CASE a.k = "item" -> [Flush(s) EXCEPT !.mode = "head"]
                            [] a.k = "end" -> [Flush(s) EXCEPT !.mode = "out", !.mac = 0]
                            [] a.k \in Opens -> [s EXCEPT !.open = Append(@, a.k)]
                            [] a.k = "}" -> [s EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)]
                            [] a.k = "block" -> s
                            [] a.k = "mac" -> See(s, A("val", s.mac))
                            [] OTHER -> See(s, a)
RECURSIVE Run(_, _)
Run(s, as) == IF as = <<>> THEN s ELSE Run(Step(s, as[1]), Tail(as))

----------------------------------------------------------------------------
\* (phase keeps TLC from drawing once and for all)
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
Init == /\ doc = <<>> /\ st = Start /\ items = <<>>
        /\ focus = (IF Sample THEN {} ELSE Features) /\ target \in Targets /\ phase = (IF Sample THEN "pick" ELSE "go")
Pick == phase = "pick" /\ phase' = "go" /\ focus' = RandomSubset(FocusSize, Features) /\ UNCHANGED <<doc, st, items, target>>
Has(f) == f \in focus
Live == phase = "go" /\ ~st.line
Going == phase = "go" /\ Len(doc) < target
Prev == IF doc = <<>> THEN "" ELSE doc[Len(doc)].k
Last == Len(items)
Here == Len(doc) + 1
Put(a) == doc' = Append(doc, a) /\ st' = Step(st, a) /\ UNCHANGED <<focus, target, phase>>
Quiet(a) == Put(a) /\ UNCHANGED items
InItem(f(_)) == items' = [items EXCEPT ![Last] = f(items[Last])]
Deep == Len(st.open)
\* whether the item has something in it
Filled == st.body # <<>>

Begin == Live /\ Going /\ st.mode = "out" /\ st.list < MaxLists /\ Quiet(A("begin", 0))
Outside == Live /\ Going /\ st.mode = "out" /\ (st.list = 0 \/ Has("out")) /\ Prev # "w" /\ Quiet(A("w", Here))
Def == Live /\ Going /\ Has("mac") /\ st.mode = "pre" /\ Quiet(A("def", Here))
Prov == Live /\ Going /\ Has("mac") /\ st.list = 1 /\ st.mode = "pre" /\ Quiet(A("prov", Here))
Prelude(k) == Live /\ Going /\ Has("prelude") /\ st.mode = "pre" /\ Quiet(A(k, 0))
Item == /\ Live /\ (Going \/ st.mode = "pre") /\ (st.mode = "pre" \/ (st.mode = "body" /\ Deep = 0 /\ Filled))
        /\ Put(A("item", 0)) /\ items' = Append(items, [key |-> 0, label |-> <<>>, has |-> FALSE, body |-> <<>>, list |-> st.list])
OpenLabel == Live /\ Going /\ Has("label") /\ st.mode = "head" /\ Put(A("[", 0)) /\ InItem(LAMBDA it : [it EXCEPT !.has = TRUE])
CloseLabel == Live /\ st.mode = "label" /\ Deep = 0 /\ st.label # <<>> /\ Quiet(A("]", 0))
Key == Live /\ st.mode \in {"head", "key"} /\ Put(A("key", Here)) /\ InItem(LAMBDA it : [it EXCEPT !.key = Here])
\* a piece of the label or of the item
Mark(a) == [k |-> a.k, n |-> a.n, em |-> \E i \in 1..Deep : st.open[i] = "em{", bf |-> \E i \in 1..Deep : st.open[i] = "bf{"]
Piece(a, b) == /\ Put(a)
               /\ InItem(LAMBDA it : IF st.mode = "label" THEN [it EXCEPT !.label = Append(@, a)] ELSE [it EXCEPT !.body = Append(@, Mark(b))])
Word == LET a == A("w", Here) IN
        /\ Live /\ (Going \/ (st.mode = "label" /\ st.label = <<>>) \/ (st.mode = "body" /\ ~Filled))
        /\ st.mode \in {"label", "body"} /\ Piece(a, a)
Thing(k) == LET a == A(k, Here) IN Live /\ Going /\ Has(k) /\ st.mode = "body" /\ Piece(a, a)
Mac == Live /\ Going /\ st.mac # 0 /\ st.mode = "body" /\ Piece(A("mac", 0), A("val", st.mac))
Bracket(k) == Live /\ Going /\ Has("bracket") /\ (st.mode = "body" \/ (st.mode = "label" /\ Deep > 0)) /\ Piece(A(k, 0), A(k, 0))
Open(k) == /\ Live /\ Going /\ Has("group") /\ st.mode \in {"label", "body"} /\ Deep < 3 /\ Put(A(k, 0))
           /\ (st.mode = "label" => k = "{")
           /\ IF st.mode = "label" THEN InItem(LAMBDA it : [it EXCEPT !.label = Append(@, A(k, 0))]) ELSE UNCHANGED items
Shut == /\ Live /\ Deep > 0 /\ Prev \notin Opens /\ Put(A("}", 0))
        /\ IF st.mode = "label" THEN InItem(LAMBDA it : [it EXCEPT !.label = Append(@, A("}", 0))]) ELSE UNCHANGED items
Block == Live /\ Going /\ Has("block") /\ st.mode = "body" /\ Quiet(A("block", 0))
NewLine == phase = "go" /\ (Going \/ st.line) /\ (st.line \/ st.mode \in {"body", "pre", "out"}) /\ Prev # "nl" /\ Quiet(A("nl", 0))
Comment == Live /\ Going /\ Has("comment") /\ st.mode \notin {"head", "key"} /\ Quiet(A("pct", 0))
\* in a comment nothing means anything
Dead(k) == phase = "go" /\ st.line /\ Going /\ Quiet(A(k, Here))
End == Live /\ ~Going /\ st.mode = "body" /\ Deep = 0 /\ Filled /\ Quiet(A("end", 0))
End2 == Live /\ Going /\ Has("out") /\ st.mode = "body" /\ Deep = 0 /\ Filled /\ Quiet(A("end", 0))
Finish == /\ Live /\ ~Going /\ st.mode = "out" /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> st.out, text |-> st.text])))
          /\ UNCHANGED <<doc, st, items, focus, target>>

Things == {"math", "url", "mail", "pct%", "acc", "href", "dash"}
Next == \/ Pick \/ Begin \/ Outside \/ Def \/ Prov \/ Item \/ OpenLabel \/ CloseLabel \/ Key \/ Word \/ Mac \/ Shut \/ Block
        \/ NewLine \/ Comment \/ End \/ End2 \/ Finish
        \/ \E k \in Some({"native", "skip", "decl"}) : Prelude(k)
        \/ \E k \in Some(Things \cap focus) : Thing(k)
        \/ \E k \in Some({"[", "]"}) : Bracket(k)
        \/ \E k \in Some(Opens) : Open(k)
        \/ \E k \in Some({"w", "item", "end", "{", "}", "[", "]", "pct", "key"}) : Dead(k)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == phase = "out"
ReadsWhatWasMeant == Done => st.out = items
ReadsAgain == Done => Run(Start, doc) = st
Closed == (st.mode \in {"out", "pre", "head", "key"} => st.open = <<>>) /\ (st.mode # "label" => ~Filled \/ st.key # 0)
=============================================================================
