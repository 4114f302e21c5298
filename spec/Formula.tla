------------------------------ MODULE Formula ------------------------------
(* Formulas in text, in formulas' text, in boxes: what opens and closes them, what is *)
(* in them, their numbers, labels and references. `st` is the reader, which sees one   *)
(* atom after the other; `fr` and `items` are what the writer meant.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Targets, Features, FocusSize, MaxDepth, Sample, Emit

VARIABLES doc, st, fr, items, focus, target, phase
vars == <<doc, st, fr, items, focus, target, phase>>

A(k, n) == [k |-> k, n |-> n]
\* environments of formulas: 1 one line, 2 one line without number, 3 aligned, 4 aligned without number,
\* 5 several lines, 6 several lines without number
Envs == 1..6
Numbered(n) == n \in {1, 3, 5}
Aligned(n) == n \in {3, 4}
Rows(n) == n > 2
Boxes == {"bf{", "em{", "note{", "head{", "{", "quote{"}
Maths == {"$", "$$", "\\(", "\\[", "begin"}
Groups == {"^{", "_{", "hat{", "bb{", "grp{", "mac1{"}
End(f) == CASE f.k \in {"$", "$$"} -> A(f.k, 0) [] f.k = "\\(" -> A("\\)", 0) [] f.k = "\\[" -> A("\\]", 0)
            [] f.k = "begin" -> A("end", f.n) [] f.k = "array" -> A("endarray", f.n) [] f.k = "left" -> A("right", f.n) [] f.k = "quote{" -> A("''", 0) [] OTHER -> A("}", 0)
Openers == Maths \cup Boxes \cup Groups \cup {"array", "left", "text{", "mbox{"}
\* whether atoms are read as formulas
RECURSIVE InMath(_)
InMath(s) == IF s = <<>> THEN FALSE
             ELSE LET k == s[Len(s)].k IN
                  IF k \in Maths THEN TRUE ELSE IF k \in Boxes \cup {"text{", "mbox{"} THEN FALSE ELSE InMath(SubSeq(s, 1, Len(s) - 1))
Within(s) == \E i \in 1..Len(s) : s[i].k \in Maths
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == IF s = <<>> THEN A("", 0) ELSE s[Len(s)]
Styles(s) == [em |-> \E i \in 1..Len(s) : s[i].k = "em{", bf |-> \E i \in 1..Len(s) : s[i].k = "bf{"]

----------------------------------------------------------------------------
\* the reader
Start == [open |-> <<>>, line |-> FALSE, body |-> <<>>, labels |-> <<>>, refs |-> <<>>, count |-> 0, out |-> <<>>, fresh |-> FALSE]
Refs == {"ref", "cite", "pic", "link"}
See(s, a) == [s EXCEPT !.body = IF a.k = "label" THEN @ ELSE Append(@, a), !.labels = IF a.k = "label" THEN Append(@, a.n) ELSE @,
                       !.refs = IF a.k \in Refs THEN Append(@, a) ELSE @]
\* a formula ends
Flush(s) == LET f == s.open[Len(s.open)]
                num == f.k = "begin" /\ Numbered(f.n) IN
            [s EXCEPT !.open = Pop(@), !.body = <<>>, !.labels = <<>>, !.refs = <<>>, !.count = IF num THEN @ + 1 ELSE @,
                      !.out = Append(@, [t |-> "f", d |-> f.k, n |-> f.n, body |-> s.body, labels |-> s.labels, refs |-> s.refs,
                                         num |-> IF num THEN s.count + 1 ELSE 0, st |-> Styles(s.open)])]
Outer(s) == ~ Within(Pop(s.open))
Step0(s, a) ==
  CASE s.line -> [s EXCEPT !.line = a.k # "nl"]
    [] a.k = "pct" -> [s EXCEPT !.line = TRUE]
    [] a.k = "nl" -> s
    [] s.open # <<>> /\ a = End(Top(s.open)) -> IF ~Within(s.open) THEN [s EXCEPT !.open = Pop(@)]
                                               ELSE IF Outer(s) THEN Flush(s) ELSE [See(s, a) EXCEPT !.open = Pop(@)]
    [] a.k \in Openers -> IF Within(s.open) THEN [See(s, a) EXCEPT !.open = Append(@, a)] ELSE [s EXCEPT !.open = Append(@, a)]
    [] Within(s.open) -> See(s, a)
    [] OTHER -> [s EXCEPT !.out = Append(@, [t |-> "w", d |-> a.k, n |-> a.n, st |-> Styles(s.open)])]
\* fresh: nothing since something was opened
Step(s, a) == [Step0(s, a) EXCEPT !.fresh = IF s.line \/ a.k \in {"pct", "nl", "label"} THEN s.fresh ELSE a.k \in Openers /\ Len(Step0(s, a).open) > Len(s.open)]
RECURSIVE Run(_, _)
Run(s, as) == IF as = <<>> THEN s ELSE Run(Step(s, as[1]), Tail(as))

----------------------------------------------------------------------------
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
Init == /\ doc = <<>> /\ st = Start /\ fr = <<>> /\ items = <<>>
        /\ focus = (IF Sample THEN {} ELSE Features) /\ target \in Targets /\ phase = (IF Sample THEN "pick" ELSE "go")
Pick == phase = "pick" /\ phase' = "go" /\ focus' = RandomSubset(FocusSize, Features) /\ UNCHANGED <<doc, st, fr, items, target>>
Has(f) == f \in focus
Live == phase = "go" /\ ~st.line
Going == phase = "go" /\ Len(doc) < target
Prev == IF doc = <<>> THEN "" ELSE doc[Len(doc)].k
Here == Len(doc) + 1
Last == Len(items)
Put(a) == doc' = Append(doc, a) /\ st' = Step(st, a) /\ UNCHANGED <<focus, target, phase>>
Math == InMath(fr)
Inside == Within(fr)
Text == ~Math
NumNow == Cardinality({i \in 1..Last : items[i].t = "f" /\ items[i].num # 0})
AddItem(i) == items' = Append(items, i)
Into(a) == items' = [items EXCEPT ![Last].body = Append(@, a)]
Room == Len(fr) < MaxDepth

Empty == st.fresh
Word == /\ Live /\ (Going \/ (fr # <<>> /\ Empty)) /\ Text /\ Put(A("w", Here)) /\ UNCHANGED fr
        /\ IF Inside THEN Into(A("w", Here)) ELSE AddItem([t |-> "w", d |-> "w", n |-> Here, st |-> Styles(fr)])
Sign(k) == /\ Live /\ Going /\ Has("sign") /\ Text /\ Put(A(k, 0)) /\ UNCHANGED fr
           /\ IF Inside THEN Into(A(k, 0)) ELSE AddItem([t |-> "w", d |-> k, n |-> 0, st |-> Styles(fr)])
Box(k) == /\ Live /\ Going /\ Has("box") /\ ~Inside /\ Room /\ (k = "head{" => fr = <<>>) /\ (k = "note{" => \A i \in 1..Len(fr) : fr[i].k # "note{")
          /\ (k \in {"bf{", "em{", "quote{"} => \A i \in 1..Len(fr) : fr[i].k # k)
          /\ Put(A(k, 0)) /\ fr' = Append(fr, A(k, 0)) /\ UNCHANGED items
InHead == \E i \in 1..Len(fr) : fr[i].k = "head{"
\* a formula in text
Formula(k, n) == /\ Live /\ Going /\ ~Inside /\ (k \in {"$$", "\\[", "begin"} => ~InHead)
                 /\ (k = "$" => Prev # "$") \* $a$$b$ is for another feature
                 /\ Put(A(k, n)) /\ fr' = Append(fr, A(k, n))
                 /\ AddItem([t |-> "f", d |-> k, n |-> n, body |-> <<>>, labels |-> <<>>, refs |-> <<>>,
                             num |-> IF k = "begin" /\ Numbered(n) THEN NumNow + 1 ELSE 0, st |-> Styles(fr)])
Adjoin == Live /\ Going /\ ~Inside /\ Has("adjoin") /\ Prev = "$" /\ Put(A("$", 0)) /\ fr' = Append(fr, A("$", 0))
          /\ AddItem([t |-> "f", d |-> "$", n |-> 0, body |-> <<>>, labels |-> <<>>, refs |-> <<>>, num |-> 0, st |-> Styles(fr)])
\* a formula in the text of a formula
Inner(k) == Live /\ Going /\ Inside /\ Text /\ Room /\ Prev # "$" /\ Put(A(k, 0)) /\ fr' = Append(fr, A(k, 0)) /\ Into(A(k, 0))
Sym == Live /\ (Going \/ Empty \/ (Math /\ items[Last].body = <<>>)) /\ Math /\ Put(A("x", Here)) /\ UNCHANGED fr /\ Into(A("x", Here))
\* other things in formulas: operators, escaped characters, primes, functions, spaces
Thing(k) == Live /\ Going /\ Math /\ Put(A(k, 0)) /\ UNCHANGED fr /\ Into(A(k, 0))
Refer(k) == Live /\ Going /\ Has("refs") /\ Math /\ Put(A(k, Here)) /\ UNCHANGED fr
            /\ items' = [items EXCEPT ![Last].body = Append(@, A(k, Here)), ![Last].refs = Append(@, A(k, Here))]
Label == /\ Live /\ Going /\ Has("label") /\ Math /\ Len(fr) > 0 /\ Top(fr).k \in {"begin", "\\["} /\ ~Within(Pop(fr)) /\ Put(A("label", Here)) /\ UNCHANGED fr
         /\ items' = [items EXCEPT ![Last].labels = Append(@, Here)]
Open(k, n) == Live /\ Going /\ Math /\ Room /\ Put(A(k, n)) /\ fr' = Append(fr, A(k, n)) /\ Into(A(k, n))
Amp == Live /\ Going /\ Math /\ (Top(fr).k = "array" \/ (Top(fr).k = "begin" /\ Aligned(Top(fr).n))) /\ Put(A("&", 0)) /\ UNCHANGED fr /\ Into(A("&", 0))
Row == Live /\ Going /\ Math /\ (Top(fr).k = "array" \/ (Top(fr).k = "begin" /\ Rows(Top(fr).n))) /\ Put(A("row", 0)) /\ UNCHANGED fr /\ Into(A("row", 0))
\* what is open ends
Shut == /\ Live /\ fr # <<>> /\ ~Empty
        /\ LET f == fr[Len(fr)] IN
           /\ (f.k \in Maths => items[Last].body # <<>>)
           /\ Put(End(f)) /\ fr' = Pop(fr)
           /\ IF Inside /\ Within(Pop(fr)) THEN Into(End(f)) ELSE UNCHANGED items
Comment == Live /\ Going /\ Has("comment") /\ Put(A("pct", 0)) /\ UNCHANGED <<fr, items>>
NewLine == phase = "go" /\ (Going \/ st.line) /\ Prev # "nl" /\ Put(A("nl", 0)) /\ UNCHANGED <<fr, items>>
Dead(k) == phase = "go" /\ st.line /\ Going /\ Put(A(k, 1)) /\ UNCHANGED <<fr, items>>
Finish == /\ Live /\ ~Going /\ fr = <<>> /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> st.out])))
          /\ UNCHANGED <<doc, st, fr, items, focus, target>>

Things == {"op", "esc", "prime", "func", "space", "mac"}
\* (formulas are short, for there to be more of them)
Short == Sample /\ Shut
Next == \/ Pick \/ Short \/ (Short /\ Len(doc) > 0) \/ Word \/ Adjoin \/ Sym \/ Label \/ Amp \/ Row \/ Shut \/ Comment \/ NewLine \/ Finish
        \/ \E k \in Some({"dollar", "percent"}) : Sign(k)
        \/ \E k \in Some(Boxes) : Box(k)
        \/ \E k \in Some(Maths \ {"begin"}) : Formula(k, 0)
        \/ \E n \in Some(Envs) : Formula("begin", n)
        \/ \E k \in Some({"$", "\\("}) : Inner(k)
        \/ \E k \in Some(Things \cap focus) : Thing(k)
        \/ \E k \in Some(Refs) : Refer(k)
        \/ Has("group") /\ \E k \in Some(Groups) : Open(k, 0)
        \/ Has("text") /\ \E k \in Some({"text{", "mbox{"}) : Open(k, 0)
        \/ Has("array") /\ \E n \in Some(1..3) : Open("array", n)
        \/ Has("left") /\ \E n \in Some(1..3) : Open("left", n)
        \/ \E k \in Some({"w", "$", "\\]", "begin", "end", "{", "}", "pct", "label"}) : Dead(k)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == phase = "out"
ReadsWhatWasMeant == Done => st.out = items
SameNesting == st.open = fr
ReadsAgain == Done => Run(Start, doc) = st
=============================================================================
