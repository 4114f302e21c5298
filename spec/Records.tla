-------------------------------- MODULE Records --------------------------------
(* Bibliographies that LaTeX runs left behind, atom by atom, in two formats:      *)
(* \bib records of amsrefs (repeated fields are put together, braces that only    *)
(* group are invisible), and the .bbl files of biblatex (names in parts, lists,   *)
(* fields, verbatim lines, and much that is not for readers). `st` is the reader, *)
(* `recs` what the writer meant.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Formats, Targets, Keys, Names, Lists, Features, FocusSize, Sample, Emit

VARIABLES fmt, doc, st, recs, focus, target, phase
vars == <<fmt, doc, st, recs, focus, target, phase>>

A(k, n) == [k |-> k, n |-> n]
Holds == {"cmd", "acc", "esc"}
Ctrl == {"cmd", "acc", "sw", "esc"}

----------------------------------------------------------------------------
\* the reader. A value is read piece by piece, `open` are the groups open in it and whether they stay.
Start == [mode |-> "out", key |-> 0, name |-> 0, kind |-> "", val |-> <<>>, open |-> <<>>, before |-> "", wait |-> FALSE, back |-> "rec",
          who |-> [p |-> <<>>, f |-> <<>>, g |-> <<>>], part |-> "", many |-> <<>>, fields |-> <<>>, out |-> <<>>]
At(fs, kd, n) == {i \in 1..Len(fs) : fs[i].kind = kd /\ fs[i].n = n}
\* a field: fields that are there again are put together
Store(s, v) == IF At(s.fields, s.kind, s.name) = {} THEN [s EXCEPT !.fields = Append(@, [kind |-> s.kind, n |-> s.name, v |-> v])]
               ELSE LET i == CHOOSE i \in At(s.fields, s.kind, s.name) : TRUE IN [s EXCEPT !.fields[i].v = @ \o <<A("and", 0)>> \o v]
CloseRec(s) == [s EXCEPT !.mode = "out", !.fields = <<>>, !.out = Append(@, [key |-> s.key, fields |-> s.fields])]
Begin(s, kd, n, back) == [s EXCEPT !.mode = "value", !.kind = kd, !.name = n, !.val = <<>>, !.open = <<>>, !.before = "", !.wait = FALSE, !.back = back]
\* one person: the prefix and the family name, the initial of the first given name
Person(w) == w.p \o (IF w.p = <<>> THEN <<>> ELSE <<A("sp", 0)>>) \o w.f \o (IF w.g = <<>> THEN <<>> ELSE <<A("inits", 0), A("init", w.g[1].n)>>)
AddOne(m, v) == IF m = <<>> THEN v ELSE m \o <<A("and", 0)>> \o v
Ends(s) == CASE s.back = "names" -> Store([s EXCEPT !.mode = "after"], s.val)
             [] s.back = "part" -> [s EXCEPT !.who[s.part] = s.val, !.mode = "person"]
             [] s.back = "items" -> [s EXCEPT !.many = AddOne(@, s.val), !.mode = "items"]
             [] OTHER -> IF s.kind = "skip" THEN [s EXCEPT !.mode = "rec"] ELSE Store([s EXCEPT !.mode = "rec"], s.val)
Text(s, a) == [s EXCEPT !.val = Append(@, a), !.before = a.k]
\* whether a group that was opened just now stays is known from what it begins with
Begun(s, a, ams) ==
  IF ~s.wait THEN s
  ELSE LET stay == ~ams \/ a.k \in Ctrl \/ \E i \in 1..Len(s.open) : s.open[i] # "group" IN
       [s EXCEPT !.wait = FALSE, !.open = Append(@, IF stay THEN "scope" ELSE "group"), !.val = IF stay THEN Append(@, A("{", 0)) ELSE @]
InValue(s0, a, ams) ==
  LET s == Begun(s0, a, ams) IN
  CASE a.k = "{" -> IF ams /\ s.before \in Holds \cup {"argend"}
                    THEN [Text(s, a) EXCEPT !.open = Append(@, "arg")]
                    ELSE [s EXCEPT !.wait = TRUE, !.before = "{"]
    [] a.k = "}" -> IF s.open = <<>> THEN Ends(s)
                    ELSE LET t == s.open[Len(s.open)] r == [s EXCEPT !.open = SubSeq(@, 1, Len(@) - 1)] IN
                         IF t = "group" THEN r ELSE [Text(r, a) EXCEPT !.before = "argend"]
    [] OTHER -> Text(s, a)

Step(s, a, ams) ==
  CASE s.mode = "line" -> IF a.k = "nl" THEN [s EXCEPT !.mode = s.part] ELSE s
    [] a.k = "pct" /\ s.mode \in {"out", "names", "after", "rec"} -> [s EXCEPT !.part = s.mode, !.mode = "line"]
    [] s.mode = "out" -> IF a.k = "rec" THEN [s EXCEPT !.key = a.n, !.mode = IF ams THEN "names" ELSE "rec"] ELSE s
    \* \bib records
    [] s.mode = "names" -> CASE a.k = "name" -> [s EXCEPT !.name = a.n, !.kind = "field", !.mode = "eq"]
                             [] a.k = "}" -> CloseRec(s)
                             [] OTHER -> s
    [] s.mode = "eq" -> CASE a.k = "=" -> s
                          [] a.k = "{" -> Begin(s, "field", s.name, "names")
                          [] OTHER -> [Store(s, <<a>>) EXCEPT !.mode = "after"]
    [] s.mode = "after" -> IF a.k = "}" THEN CloseRec(s) ELSE [s EXCEPT !.mode = "names"]
    \* \entry records
    [] s.mode = "rec" -> CASE a.k = "field" -> Begin(s, "field", a.n, "rec")
                           [] a.k = "skip" -> Begin(s, "skip", a.n, "rec")
                           [] a.k = "verb" -> [s EXCEPT !.mode = "raw", !.kind = "verb", !.name = a.n, !.val = <<>>]
                           [] a.k = "people" -> [s EXCEPT !.mode = "people", !.kind = "people", !.name = a.n, !.many = <<>>]
                           [] a.k = "items" -> [s EXCEPT !.mode = "items", !.kind = "items", !.name = a.n, !.many = <<>>]
                           [] a.k = "end" -> CloseRec(s)
                           [] OTHER -> s
    [] s.mode = "raw" -> IF a.k = "endverb" THEN Store([s EXCEPT !.mode = "rec"], s.val) ELSE [s EXCEPT !.val = Append(@, a)]
    [] s.mode = "people" -> IF a.k = "person" THEN [s EXCEPT !.mode = "person", !.who = Start.who] ELSE Store([s EXCEPT !.mode = "rec"], s.many)
    [] s.mode = "person" -> IF a.k = "part" THEN [Begin(s, s.kind, s.name, "part") EXCEPT !.part = <<"p", "f", "g">>[a.n]]
                            ELSE [s EXCEPT !.many = AddOne(@, Person(s.who)), !.mode = "people"]
    [] s.mode = "items" -> IF a.k = "item" THEN Begin(s, s.kind, s.name, "items") ELSE Store([s EXCEPT !.mode = "rec"], s.many)
    [] OTHER -> InValue(s, a, ams)
RECURSIVE Run(_, _, _)
Run(s, as, ams) == IF as = <<>> THEN s ELSE Run(Step(s, as[1], ams), Tail(as), ams)

----------------------------------------------------------------------------
\* the writer: records, what is in them, and the pieces of that
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
Init == /\ doc = <<>> /\ st = Start /\ recs = <<>> /\ fmt \in Formats
        /\ focus = (IF Sample THEN {} ELSE Features) /\ target \in Targets /\ phase = (IF Sample THEN "pick" ELSE "go")
Pick == phase = "pick" /\ phase' = "go" /\ focus' = RandomSubset(FocusSize, Features) /\ UNCHANGED <<fmt, doc, st, recs, target>>
Ams == fmt = "ams"
Has(f) == f \in focus
Going == phase = "go" /\ Len(doc) < target
Put(a) == doc' = Append(doc, a) /\ st' = Step(st, a, Ams) /\ UNCHANGED <<fmt, focus, target, phase>>
Quiet(a) == Put(a) /\ UNCHANGED recs
Last == Len(recs)
Its == recs[Last].its
LI == Len(Its)
Prev == IF doc = <<>> THEN "" ELSE doc[Len(doc)].k
FreeKeys == {n \in Keys : \A i \in 1..Last : recs[i].key # n}
Open(n) == Going /\ st.mode = "out" /\ Put(A("rec", n)) /\ recs' = Append(recs, [key |-> n, its |-> <<>>])
NewItem(kd, n) == recs' = [recs EXCEPT ![Last].its = Append(@, [kind |-> kd, n |-> n, vs |-> <<>>])]
\* a value of the last item begins
NewValue(sort) == recs' = [recs EXCEPT ![Last].its[LI].vs = Append(@, [sort |-> sort, v |-> <<>>])]
Taken(kd) == {Its[i].n : i \in {j \in 1..LI : Its[j].kind = kd}}

Name(n) == /\ Ams /\ Going /\ st.mode = "names" /\ (Has("repeat") \/ n \notin Taken("field")) /\ Put(A("name", n)) /\ NewItem("field", n)
Equals == phase = "go" /\ st.mode = "eq" /\ Prev # "=" /\ Quiet(A("=", 0))
OpenValue == phase = "go" /\ st.mode = "eq" /\ Prev = "=" /\ Put(A("{", 0)) /\ NewValue("text")
Bare == /\ phase = "go" /\ Has("bare") /\ st.mode = "eq" /\ Prev = "=" /\ Put(A("num", Len(doc) + 1))
        /\ recs' = [recs EXCEPT ![Last].its[LI].vs = <<[sort |-> "text", v |-> <<A("num", Len(doc) + 1)>>]>>]
Comma == phase = "go" /\ st.mode = "after" /\ Quiet(A(",", 0))
CloseAms == phase = "go" /\ Ams /\ st.mode \in {"names", "after"} /\ Its # <<>> /\ Quiet(A("}", 0))

Item(k, n) == /\ ~Ams /\ Going /\ st.mode = "rec" /\ Put(A(k, n)) /\ NewItem(k, n)
Field(n) == ~Ams /\ Going /\ st.mode = "rec" /\ n \notin Taken("field") /\ Put(A("field", n))
            /\ recs' = [recs EXCEPT ![Last].its = Append(@, [kind |-> "field", n |-> n, vs |-> <<[sort |-> "text", v |-> <<>>]>>])]
Skipped(n) == Has("skip") /\ ~Ams /\ Going /\ st.mode = "rec" /\ Put(A("skip", n))
              /\ recs' = [recs EXCEPT ![Last].its = Append(@, [kind |-> "skip", n |-> n, vs |-> <<[sort |-> "text", v |-> <<>>]>>])]
Verb(n) == Has("verb") /\ ~Ams /\ Going /\ st.mode = "rec" /\ n \notin Taken("verb") /\ Put(A("verb", n))
           /\ recs' = [recs EXCEPT ![Last].its = Append(@, [kind |-> "verb", n |-> n, vs |-> <<[sort |-> "raw", v |-> <<>>]>>])]
People(n) == Has("people") /\ st.mode = "rec" /\ n \notin Taken("people") /\ Item("people", n)
Items(n) == Has("items") /\ st.mode = "rec" /\ n \notin Taken("items") /\ Item("items", n)
Filled == Its[LI].vs # <<>>
NewPerson == /\ phase = "go" /\ st.mode = "people" /\ (Going \/ ~Filled)
             /\ Put(A("person", 0)) /\ NewValue("person")
\* parts in any order: prefix, family, given
Had == {doc[j].n : j \in {i \in 1..Len(doc) : doc[i].k = "part" /\ \A q \in i..Len(doc) : doc[q].k # "person"}}
Part(n) == /\ phase = "go" /\ st.mode = "person" /\ (n # 2 => Going /\ Has(<<"prefix", "family", "given">>[n])) /\ n \notin Had
           /\ Put(A("part", n)) /\ NewValue(<<"p", "f", "g">>[n])
EndPerson == phase = "go" /\ st.mode = "person" /\ 2 \in Had /\ Quiet(A("endperson", 0))
EndPeople == phase = "go" /\ st.mode = "people" /\ Filled /\ Quiet(A("endpeople", 0))
NewOne == phase = "go" /\ st.mode = "items" /\ (Going \/ ~Filled) /\ Put(A("item", 0)) /\ NewValue("item")
EndItems == phase = "go" /\ st.mode = "items" /\ Filled /\ Quiet(A("enditems", 0))
EndVerb == phase = "go" /\ st.mode = "raw" /\ st.val # <<>> /\ Quiet(A("endverb", 0))
EndRec == phase = "go" /\ ~Ams /\ st.mode = "rec" /\ Its # <<>> /\ Quiet(A("end", 0))
Junk(n) == Going /\ Has("junk") /\ st.mode \in {"out"} \cup (IF Ams THEN {} ELSE {"rec"}) /\ Prev # "junk" /\ Quiet(A("junk", n))
Comment == Going /\ Has("comment") /\ st.mode \in {"out", "names", "after"} \cup (IF Ams THEN {} ELSE {"rec"}) /\ Quiet(A("pct", 0))
Dead(k, n) == Going /\ st.mode = "line" /\ Quiet(A(k, n))
EndLine == phase = "go" /\ st.mode = "line" /\ Quiet(A("nl", 0))

\* pieces of text; what is needed next is written next
InText == st.mode = "value"
LV == Len(Its[LI].vs)
Piece(a) == recs' = [recs EXCEPT ![Last].its[LI].vs[LV].v = Append(@, a)]
Empty == Its[LI].vs[LV].v = <<>>
Given == st.back = "part" /\ st.part = "g"
Need == InText /\ Prev \in {"cmd", "acc", "dash", "delim"}
Word == LET a == A("w", Len(doc) + 1) IN
        InText /\ Prev # "cmd" /\ (Going \/ (phase = "go" /\ (Empty \/ Need \/ Prev \in {"{", "sw"}))) /\ Put(a) /\ Piece(a)
Nest == /\ InText /\ st.kind # "skip" /\ (Given => ~Empty) /\ ((Going /\ Has("nest") /\ Len(st.open) < 2) \/ (phase = "go" /\ Prev \in {"cmd", "acc"})) /\ Prev \notin {"dash", "delim"} /\ ~st.wait /\ Put(A("{", 0)) /\ Piece(A("{", 0))
Unnest == InText /\ phase = "go" /\ ~st.wait /\ ~Need /\ Prev \notin {"{", "sw"} /\ st.open # <<>> /\ Put(A("}", 0)) /\ Piece(A("}", 0))
Cmd == InText /\ Going /\ st.kind # "skip" /\ ~Given /\ Has("cmd") /\ ~Need /\ Len(st.open) < 2 /\ Put(A("cmd", Len(doc) + 1)) /\ Piece(A("cmd", Len(doc) + 1))
Switch == InText /\ Going /\ Has("sw") /\ st.wait /\ Put(A("sw", Len(doc) + 1)) /\ Piece(A("sw", Len(doc) + 1))
Special(k) == LET a == A(k, Len(doc) + 1) IN
              InText /\ Going /\ st.kind # "skip" /\ ~Need /\ Has(k) /\ (Given => ~Empty /\ k # ",") /\ (k = "delim" => ~Ams /\ st.back = "part" /\ ~Empty) /\ (k = "dash" => ~Ams /\ st.back = "rec" /\ ~Empty) /\ Put(a) /\ Piece(a)
CloseValue == InText /\ phase = "go" /\ ~Need /\ ~st.wait /\ st.open = <<>> /\ (~Empty \/ (Has("empty") /\ st.back \in {"names", "rec"} /\ Going)) /\ Quiet(A("}", 0))
Raw(k) == LET a == A(k, Len(doc) + 1) IN st.mode = "raw" /\ (Going \/ (phase = "go" /\ Empty /\ k = "w")) /\ Put(a) /\ Piece(a)

Finish == /\ phase = "go" /\ (~Going \/ FreeKeys = {}) /\ st.mode = "out" /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([fmt |-> fmt, doc |-> doc, out |-> st.out])))
          /\ UNCHANGED <<fmt, doc, st, recs, focus, target>>
Next == \/ Pick \/ Equals \/ OpenValue \/ Bare \/ Comma \/ CloseAms \/ NewPerson \/ EndPerson \/ EndPeople \/ NewOne \/ EndItems \/ EndVerb \/ EndRec
        \/ Word \/ Nest \/ Unnest \/ Cmd \/ Switch \/ CloseValue \/ Comment \/ EndLine \/ Finish
        \/ \E n \in Some(1..5) : Junk(n)
        \/ \E n \in Some(FreeKeys) : Open(n)
        \/ \E n \in Some(Names) : Name(n) \/ Field(n)
        \/ \E n \in Some(1..3) : Skipped(n) \/ Verb(n)
        \/ \E n \in Some(Lists) : People(n)
        \/ \E n \in Some(Lists) : Items(n)
        \/ \E n \in 1..3 : Part(n)
        \/ \E k \in Some({"rec", "w", "name", "}", "field"}) : Dead(k, 1)
        \/ \E k \in Some({",", "=", "acc", "math", "esc", "dash", "delim"}) : Special(k)
        \/ \E k \in Some({"w", "w", "pct%", "us", ",", "tilde", "hash"}) : Raw(k)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what the writer meant, without reading
\* the brace that closes the one at i
RECURSIVE Depth(_, _, _)
Depth(v, i, j) == IF j < i THEN 0 ELSE Depth(v, i, j - 1) + (IF v[j].k = "{" THEN 1 ELSE IF v[j].k = "}" THEN -1 ELSE 0)
Match(v, i) == CHOOSE j \in i..Len(v) : Depth(v, i, j) = 0 /\ \A q \in i..(j - 1) : Depth(v, i, q) > 0
\* a brace stays if it holds an argument or what a command works on, or is inside of such a one
RECURSIVE StaysAfter(_, _)
RECURSIVE Stays(_, _)
StaysAfter(v, i) == /\ i > 1
                    /\ CASE v[i - 1].k = "{" -> FALSE
                         [] v[i - 1].k = "}" -> LET h == CHOOSE h \in 1..(i - 2) : v[h].k = "{" /\ Match(v, h) = i - 1 IN Stays(v, h) \/ StaysAfter(v, i - 1)
                         [] OTHER -> v[i - 1].k \in Holds
Stays(v, i) == \/ StaysAfter(v, i)
               \/ i < Len(v) /\ v[i + 1].k \in Ctrl
               \/ \E h \in 1..(i - 1) : v[h].k = "{" /\ Match(v, h) > i /\ Stays(v, h)
Gone(v) == IF ~Ams THEN {} ELSE UNION {{i, Match(v, i)} : i \in {j \in 1..Len(v) : v[j].k = "{" /\ ~Stays(v, j)}}
RECURSIVE Keep(_, _, _)
Keep(v, gone, i) == IF i > Len(v) THEN <<>> ELSE (IF i \in gone THEN <<>> ELSE <<v[i]>>) \o Keep(v, gone, i + 1)
Meant(v) == Keep(v, Gone(v), 1)
\* the parts of the person at i
OfPerson(vs, i, sort) == {j \in (i + 1)..Len(vs) : vs[j].sort = sort /\ \A q \in (i + 1)..j : vs[q].sort # "person"}
PartOf(vs, i, sort) == LET S == OfPerson(vs, i, sort) IN IF S = {} THEN <<>> ELSE vs[CHOOSE j \in S : TRUE].v
RECURSIVE Joined(_, _)
Joined(vs, i) == IF i > Len(vs) THEN <<>>
                 ELSE (CASE vs[i].sort = "person" -> (IF i = 1 THEN <<>> ELSE <<A("and", 0)>>) \o PartOf(vs, i, "p") \o (IF OfPerson(vs, i, "p") = {} THEN <<>> ELSE <<A("sp", 0)>>) \o PartOf(vs, i, "f")
                                                      \o (IF OfPerson(vs, i, "g") = {} THEN <<>> ELSE <<A("inits", 0), A("init", PartOf(vs, i, "g")[1].n)>>)
                         [] vs[i].sort \in {"p", "f", "g"} -> <<>>
                         [] vs[i].sort = "item" -> (IF i = 1 THEN <<>> ELSE <<A("and", 0)>>) \o Meant(vs[i].v)
                         [] vs[i].sort = "raw" -> vs[i].v
                         [] OTHER -> Meant(vs[i].v)) \o Joined(vs, i + 1)
First(its, i) == its[i].kind # "skip" /\ \A j \in 1..(i - 1) : its[j].kind # its[i].kind \/ its[j].n # its[i].n
RECURSIVE Same(_, _, _)
Same(its, i, j) == IF j > Len(its) THEN <<>>
                   ELSE (IF its[j].kind = its[i].kind /\ its[j].n = its[i].n THEN (IF j = i THEN <<>> ELSE <<A("and", 0)>>) \o Joined(its[j].vs, 1) ELSE <<>>) \o Same(its, i, j + 1)
RECURSIVE Fields(_, _)
Fields(its, i) == IF i > Len(its) THEN <<>>
                  ELSE (IF First(its, i) THEN <<[kind |-> its[i].kind, n |-> its[i].n, v |-> Same(its, i, i)]>> ELSE <<>>) \o Fields(its, i + 1)
ReadsWhatWasMeant == phase = "out" => st.out = [i \in 1..Len(recs) |-> [key |-> recs[i].key, fields |-> Fields(recs[i].its, 1)]]
\* at the end nothing is open
Closed == phase = "out" => st.mode = "out" /\ Run(Start, doc, Ams) = st
\* braces that stay are balanced
Balanced == phase = "out" => \A i \in 1..Len(st.out) : \A j \in 1..Len(st.out[i].fields) :
              LET v == st.out[i].fields[j].v IN Depth(v, 1, Len(v)) = 0 /\ \A q \in 1..Len(v) : Depth(v, 1, q) >= 0
================================================================================
