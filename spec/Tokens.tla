------------------------------- MODULE Tokens -------------------------------
(* Trees of tokens as the parser hands them over, written event by event (a token  *)
(* opens, its title, content, proof or placeholders begin, text or a cell comes,   *)
(* it closes), and the factory that makes output tokens of them: it keeps a stack  *)
(* of the tokens that are open and says which events come through. What comes      *)
(* through has to be what a look at the whole says; and what has come through       *)
(* comes through unchanged.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Types, Targets, Depth, FocusSize, Sample, Emit

VARIABLES doc, gen, conv, target, focus, phase
vars == <<doc, gen, conv, target, focus, phase>>

Headed == {"section", "paragraph", "environment", "list", "item", "algorithm"}
Named == {"citation", "ref", "url"}
Dropped == {"date", "unknown"}
Leaves == {"text", "diagram", "code", "algorithmic", "includegraphics", "includepdf", "command", "mark"}
Cells == {"cell", "span", "part"}
Slots(t) == CASE t \in Headed -> <<"title", "content">>
              [] t = "math_env" -> <<"title", "content", "proof">>
              [] t \in Named -> <<"title">>
              [] t = "equation" -> <<"ph">>
              [] t \in Leaves -> <<>>
              [] OTHER -> <<"content">>
Must(t, slot) == slot = "content" \/ (slot = "title" /\ t \in {"section", "paragraph"})
\* text may stand for the whole: kept as text, or made a token of text
AsText(t, slot) == \/ slot = "content" /\ t \in {"document", "abstract", "environment", "figure", "subfigure", "table", "item", "quote",
                                                 "email", "affiliation", "address", "keywords", "bibitem", "span"}
                   \/ slot = "title" /\ t = "url"
TextOk(t, slot) == slot \in {"title", "content"} /\ t \notin {"math_env", "tabular", "author", "bibliography", "cell", "part"}

\* p: which event opened the token this one stands in
Ev(e, t, s, v, p) == [e |-> e, t |-> t, s |-> s, v |-> v, p |-> p]

----------------------------------------------------------------------------
(* the factory: a stack of open tokens, each with the slot it is in; skip: it does *)
(* not come through; at: where it began                                             *)
Top(c) == c.stack[Len(c.stack)]
Skipping(c) == c.stack # <<>> /\ Top(c).skip
Through(c, t) == ~Skipping(c) /\ t \notin Dropped /\ ~(c.stack # <<>> /\ Top(c).t = "bibliography" /\ t # "bibitem")
Give(c, ev) == [c EXCEPT !.out = Append(@, ev)]
Step(c, ev) ==
  CASE ev.e = "open" ->
         LET ok == Through(c, ev.t) IN
         LET d == IF ok THEN Give(c, ev) ELSE c IN
         [d EXCEPT !.stack = Append(@, [t |-> ev.t, slot |-> "", skip |-> ~ok, at |-> Len(d.out)])]
    [] ev.e = "slot" -> LET d == [c EXCEPT !.stack[Len(c.stack)].slot = ev.s] IN IF Skipping(c) THEN d ELSE Give(d, ev)
    [] ev.e = "leaf" -> IF Through(c, ev.t) THEN Give(c, IF ev.t = "mark" THEN [ev EXCEPT !.t = "plain"] ELSE ev) ELSE c
    [] ev.e = "str" -> IF Skipping(c) THEN c
                       ELSE IF AsText(Top(c).t, Top(c).slot) THEN Give(c, ev)
                       ELSE IF ev.v = 0 THEN c ELSE Give(c, Ev("leaf", "plain", "", ev.v, ev.p))
    [] ev.e \in {"row", "cstr", "cnone"} -> IF Skipping(c) THEN c ELSE Give(c, ev)
    [] ev.e = "close" ->
         LET f == Top(c) IN
         LET d == [c EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)] IN
         IF f.skip THEN d
         ELSE IF f.t = "cell" /\ Len(c.out) = f.at + 1            \* nothing in it (but for its slot)
              THEN [d EXCEPT !.out = Append(SubSeq(@, 1, f.at - 1), Ev("cnone", "", "", ev.v, ev.p))]
         ELSE Give(d, ev)
Empty == [stack |-> <<>>, out |-> <<>>]
RECURSIVE Conv(_, _)
Conv(c, evs) == IF evs = <<>> THEN c ELSE Conv(Step(c, evs[1]), Tail(evs))

(* the same by a look at the whole: an event is hidden if it stands in a token that *)
(* is dropped                                                                        *)
Gone(evs, j) == \/ evs[j].t \in Dropped
                \/ evs[j].e \in {"open", "leaf"} /\ evs[j].t # "bibitem" /\ evs[j].p # 0 /\ evs[evs[j].p].t = "bibliography"
RECURSIVE Hidden(_, _)
Hidden(evs, i) == i # 0 /\ (Gone(evs, i) \/ Hidden(evs, evs[i].p))
Said(evs) == {evs[i].v : i \in {i \in 1..Len(evs) : evs[i].e \in {"leaf", "cstr", "str"} /\ ~Hidden(evs, i) /\ evs[i].v # 0}}
SaidOut(evs) == {evs[i].v : i \in {i \in 1..Len(evs) : evs[i].e \in {"leaf", "cstr", "str"} /\ evs[i].v # 0}}

----------------------------------------------------------------------------
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
Init == /\ doc = <<>> /\ gen = <<>> /\ conv = Empty /\ target \in Targets
        /\ focus = (IF Sample THEN {} ELSE Types) /\ phase = (IF Sample THEN "pick" ELSE "write")
Pick == phase = "pick" /\ phase' = "write" /\ focus' = RandomSubset(FocusSize, Types) /\ UNCHANGED <<doc, gen, conv, target>>

\* gen: the tokens that are open, with the number of the slot they are in and of what is in that
Writing == phase = "write" /\ Len(doc) < target
G == gen[Len(gen)]
Slot == IF gen = <<>> THEN "content" ELSE IF G.i = 0 THEN "" ELSE Slots(G.t)[G.i]
Within == IF gen = <<>> THEN "" ELSE G.t
Full == gen # <<>> /\ G.n >= 90
Put(ev) == doc' = Append(doc, ev) /\ conv' = Step(conv, ev) /\ UNCHANGED <<target, focus, phase>>
Count(g, k) == IF g = <<>> THEN g ELSE [g EXCEPT ![Len(g)].n = @ + k]
\* what may stand here
Fits(t) == /\ Slot # "" /\ ~Full
           /\ (t \in {"cell", "span"} <=> Within = "tabular") /\ (t = "part" <=> Within = "author")
           /\ (Within = "tabular" => G.n > 0)
           /\ (Slot = "proof" => G.n = 0 /\ t \in {"math_env"} \cup Dropped)
At == IF gen = <<>> THEN 0 ELSE G.at
Open(t) == Writing /\ Len(gen) < Depth /\ Fits(t) /\ t \notin Leaves /\ Put(Ev("open", t, "", Len(doc) + 1, At))
           /\ gen' = Append(Count(gen, 1), [t |-> t, i |-> 0, n |-> 0, at |-> Len(doc) + 1])
Leaf(t) == Writing /\ Fits(t) /\ t \in Leaves /\ Put(Ev("leaf", t, "", Len(doc) + 1, At)) /\ gen' = Count(gen, 1)
Str(e) == Writing /\ gen # <<>> /\ Slot # "" /\ TextOk(G.t, Slot) /\ G.n = 0 /\ Put(Ev("str", "", "", IF e THEN 0 ELSE Len(doc) + 1, At)) /\ gen' = Count(gen, 90)
Row == Writing /\ Within = "tabular" /\ Slot = "content" /\ Put(Ev("row", "", "", Len(doc) + 1, At)) /\ gen' = Count(gen, 1)
CellText(w) == Writing /\ Within = "tabular" /\ Slot = "content" /\ G.n > 0 /\ Put(Ev(w, "", "", Len(doc) + 1, At)) /\ gen' = Count(gen, 1)
Next1 == IF gen = <<>> THEN {}
         ELSE {j \in (G.i + 1)..Len(Slots(G.t)) : (Len(doc) < target \/ Must(G.t, Slots(G.t)[j])) /\ \A k \in (G.i + 1)..(j - 1) : ~Must(G.t, Slots(G.t)[k])}
Enter(j) == /\ phase = "write"
            /\ Put(Ev("slot", "", Slots(G.t)[j], Len(doc) + 1, At))
            /\ gen' = [gen EXCEPT ![Len(gen)].i = j, ![Len(gen)].n = 0]
Ready == gen # <<>> /\ \A k \in (G.i + 1)..Len(Slots(G.t)) : ~Must(G.t, Slots(G.t)[k])
Close == phase = "write" /\ Ready /\ Put(Ev("close", G.t, "", Len(doc) + 1, At)) /\ gen' = SubSeq(gen, 1, Len(gen) - 1)
Finish == /\ phase = "write" /\ gen = <<>> /\ Len(doc) >= target /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> conv.out])))
          /\ UNCHANGED <<doc, gen, conv, target, focus>>

Kinds == (focus \cup Cells \cup {"text", "mark"}) \cap (Types \cup Cells)
Next == \/ Pick \/ Row \/ Close \/ Finish
        \/ \E t \in Some({t \in Kinds : Fits(t) /\ t \notin Leaves}) : Open(t)
        \/ \E t \in Some(Kinds \cap Leaves) : Leaf(t)
        \/ \E e \in Some(BOOLEAN) : Str(e)
        \/ \E w \in Some({"cstr", "cnone"}) : CellText(w)
        \/ \E j \in Some(Next1) : Enter(j)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what is said in the tokens that are kept, and nothing else, comes through
NothingLost == phase = "out" => SaidOut(conv.out) = Said(doc)
\* the factory and the writer agree on what is open
SameOpen == Len(gen) = Len(conv.stack) /\ \A i \in 1..Len(gen) : gen[i].t = conv.stack[i].t
\* what has come through comes through unchanged
Idempotent == phase = "out" => Conv(Empty, conv.out).out = conv.out /\ Conv(Empty, conv.out).stack = <<>>
=============================================================================
