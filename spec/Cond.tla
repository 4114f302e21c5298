--------------------------------- MODULE Cond --------------------------------
(* Conditionals.  A document is a stream of words, openings \if.., \else, \fi  *)
(* (or braces for the \ifthenelse family), switch settings and definitions.    *)
(* A constant condition selects its branch; a condition the converter cannot   *)
(* decide (switches, comparisons) selects the first branch; everything in a    *)
(* branch not selected is without effect, whatever it nests.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, MaxDepth,
          Kinds,      \* condition kinds in play
          Boxes,      \* containers in play ("item", "note", ...)
          Emit

VARIABLES doc, stack, seen, val, w, target, phase
vars == <<doc, stack, seen, val, w, target, phase>>

Braced == {"ifthenelse", "iffile"}
\* the kinds whose first branch is not the selected one
Second == {"iffalse"}

Live == \A i \in 1..Len(stack) : stack[i].live
Inner == stack[Len(stack)]
Going == phase = "go" /\ Len(doc) < target
Ev(k, v) == [k |-> k, v |-> v, id |-> Len(doc) + 1, live |-> Live, val |-> val]

Init == /\ doc = <<>> /\ stack = <<>> /\ seen = <<>> /\ val = 0 /\ w = 0
        /\ target \in Targets /\ phase = "go"

Text == /\ Going /\ doc' = Append(doc, Ev("txt", ""))
        /\ seen' = IF Live THEN Append(seen, [id |-> Len(doc) + 1, val |-> 0]) ELSE seen
        /\ UNCHANGED <<stack, val, w, target, phase>>
\* a use of a macro defined by the events "def"; its value tells which one is in force
Use == /\ Going /\ val # 0 /\ doc' = Append(doc, Ev("use", ""))
       /\ seen' = IF Live THEN Append(seen, [id |-> Len(doc) + 1, val |-> val]) ELSE seen
       /\ UNCHANGED <<stack, val, w, target, phase>>
Def == /\ Going /\ w' = w + 1
       /\ doc' = Append(doc, [Ev("def", "") EXCEPT !.val = w'])
       /\ val' = IF Live THEN w' ELSE val
       /\ UNCHANGED <<stack, seen, target, phase>>
Toggle(v) == /\ Going /\ "switch" \in Kinds /\ doc' = Append(doc, Ev("toggle", v))
             /\ UNCHANGED <<stack, seen, val, w, target, phase>>

Open(k) == /\ Going /\ Len(stack) < MaxDepth
           /\ doc' = Append(doc, Ev("open", k))
           /\ stack' = Append(stack, [kind |-> k, branch |-> 1, live |-> k \notin Second])
           /\ UNCHANGED <<seen, val, w, target, phase>>
Else == /\ phase = "go" /\ stack # <<>> /\ Inner.branch = 1 /\ Inner.kind \notin Boxes
        /\ doc' = Append(doc, Ev("else", Inner.kind))
        /\ stack' = [stack EXCEPT ![Len(stack)] = [Inner EXCEPT !.branch = 2, !.live = Inner.kind \in Second]]
        /\ UNCHANGED <<seen, val, w, target, phase>>
\* the next case of an \ifcase; the first one is the one kept
Or == /\ Going /\ stack # <<>> /\ Inner.kind = "ifcase" /\ Inner.branch = 1
      /\ doc' = Append(doc, Ev("or", "ifcase"))
      /\ stack' = [stack EXCEPT ![Len(stack)] = [Inner EXCEPT !.live = FALSE]]
      /\ UNCHANGED <<seen, val, w, target, phase>>
Fi == /\ phase = "go" /\ stack # <<>>
      /\ (Inner.kind \in Braced => Inner.branch = 2)
      /\ doc' = Append(doc, Ev("fi", Inner.kind))
      /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
      /\ UNCHANGED <<seen, val, w, target, phase>>
\* a container (environment, argument) opened and closed within one branch
Box(b) == /\ Going /\ Len(stack) < MaxDepth
          /\ doc' = Append(doc, Ev("open", b))
          /\ stack' = Append(stack, [kind |-> b, branch |-> 1, live |-> TRUE])
          /\ UNCHANGED <<seen, val, w, target, phase>>

Done == /\ phase = "go" /\ Len(doc) >= target /\ stack = <<>>
        /\ phase' = "done"
        /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, seen |-> seen])))
        /\ UNCHANGED <<doc, stack, seen, val, w, target>>
Next == Text \/ Use \/ Def \/ (\E v \in {"true", "false"} : Toggle(v))
        \/ (\E k \in Kinds : Open(k)) \/ Or \/ Else \/ Fi \/ (\E b \in Boxes : Box(b)) \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
D == 1..Len(doc)
Depth(i) == Cardinality({j \in 1..(i-1) : doc[j].k = "open"}) - Cardinality({j \in 1..(i-1) : doc[j].k = "fi"})
\* the opening a position lies in at nesting depth d
Opener(i, d) == CHOOSE j \in 1..(i-1) : doc[j].k = "open" /\ Depth(j) = d - 1
                   /\ \A m \in (j+1)..(i-1) : doc[m].k = "open" => Depth(m) # d - 1
InElse(j, i) == \E m \in (j+1)..(i-1) : doc[m].k \in {"else", "or"} /\ Depth(m) = Depth(j) + 1
Selected(j, i) == IF doc[j].v \in Boxes THEN TRUE
                  ELSE IF doc[j].v \in Second THEN InElse(j, i) ELSE ~InElse(j, i)
Shown(i) == \A d \in 1..Depth(i) : Selected(Opener(i, d), i)
\* exactly the words all of whose enclosing branches are selected come out, in order
Visible == LET want == SelectSeq([i \in D |-> i], LAMBDA i : doc[i].k \in {"txt", "use"} /\ Shown(i))
           IN /\ Len(seen) = Len(want) /\ \A n \in 1..Len(want) : seen[n].id = want[n]
\* a use sees the last definition that is itself visible
LastDef == \A n \in 1..Len(seen) : doc[seen[n].id].k = "use" =>
   \E j \in 1..(seen[n].id - 1) : /\ doc[j].k = "def" /\ Shown(j) /\ doc[j].val = seen[n].val
                                  /\ \A m \in (j+1)..(seen[n].id - 1) : doc[m].k = "def" => ~Shown(m)
=============================================================================
