------------------------------ MODULE Packages ------------------------------
(* A document with its own style and class files. First the files are written,   *)
(* then the preamble; then a reader goes through class, packages, and what these  *)
(* load, with a stack of files that are open; then the body uses what has been    *)
(* declared. What the reader holds at the end has to be what a recursive reading   *)
(* of the whole says.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Styles, Classes, Inputs, Names, Targets, Uses, PreMax, Features, FocusSize, Sample, Emit

VARIABLES files, now, pre, stack, st, body, n, want, target, focus, phase
vars == <<files, now, pre, stack, st, body, n, want, target, focus, phase>>

Missing == "none"                       \* a file that is not there
Files == Styles \cup Classes \cup Inputs
Undef == [w |-> "", v |-> 0]
Item(k) == [k |-> k, w |-> "", m |-> "", v |-> 0, fs |-> <<>>]
Start == [loaded |-> {}, order |-> <<>>, mac |-> [m \in Names |-> Undef], col |-> [m \in Names |-> 0], thm |-> {}]

----------------------------------------------------------------------------
(* what a declaration does; a macro from a style file takes its arguments and     *)
(* says nothing, one from the document says its word                               *)
Declare(s, it) ==
  CASE it.k = "thm" -> [s EXCEPT !.thm = @ \cup {it.v}]
    [] it.k = "col" -> [s EXCEPT !.col[it.m] = it.v]
    [] it.k = "mac" -> IF it.w = "prov" /\ s.mac[it.m] # Undef THEN s ELSE [s EXCEPT !.mac[it.m] = [w |-> IF it.fs = <<>> THEN "style" ELSE "doc", v |-> it.v]]
    [] OTHER -> s
Load(s, f) == [s EXCEPT !.loaded = @ \cup {f}, !.order = Append(@, f)]

(* the branches that are not taken *)
Taken(w) == w \in {"true", "there"}
OpenAt(items, i) == IF \E j \in 1..i : items[j].k = "open" /\ \A l \in j..i : items[l].k # "close"
                    THEN CHOOSE j \in 1..i : items[j].k = "open" /\ \A l \in (j + 1)..i : items[l].k \notin {"open", "close"} /\ items[j].k = "open"
                    ELSE 0
Dead(items, i) == LET j == OpenAt(items, i)
                  IN j # 0 /\ Taken(items[j].w) = (\E l \in j..i : items[l].k = "mid")
Reached(items, i) == ~Dead(items, i) /\ \A j \in 1..(i - 1) : items[j].k # "endinput"

(* reading recursively *)
RECURSIVE Read(_, _, _), ReadFiles(_, _)
ReadFiles(s, fs) ==
  IF fs = <<>> THEN s
  ELSE ReadFiles(IF fs[1] \in s.loaded \/ fs[1] \notin Files THEN s ELSE Read(Load(s, fs[1]), files[fs[1]], 1), Tail(fs))
Read(s, items, i) ==
  IF i > Len(items) THEN s
  ELSE Read(IF ~Reached(items, i) THEN s
            ELSE IF items[i].k \in {"req", "input", "class"} THEN ReadFiles(s, items[i].fs)
            ELSE Declare(s, items[i]), items, i + 1)

----------------------------------------------------------------------------
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
Init == /\ files = [f \in Files |-> <<>>] /\ now = CHOOSE f \in Files : TRUE
        /\ pre = <<>> /\ stack = <<>> /\ st = Start /\ body = <<>> /\ n = 0 /\ want = <<>>
        /\ target \in Targets /\ focus = (IF Sample THEN {} ELSE Features) /\ phase = (IF Sample THEN "pick" ELSE "files")
Pick == phase = "pick" /\ phase' = "files" /\ focus' = RandomSubset(FocusSize, Features) /\ now' = RandomElement(Files)
        /\ UNCHANGED <<files, pre, stack, st, body, n, want, target>>
Has(x) == x \in focus
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET f == CHOOSE f \in S : TRUE IN Len(files[f]) + Total(S \ {f})
Mine == files[now]
Last == Mine[Len(Mine)].k
Within == IF Mine = <<>> THEN 0 ELSE OpenAt(Mine, Len(Mine))
Ended == Mine # <<>> /\ \E i \in 1..Len(Mine) : Mine[i].k = "endinput"
Writing == phase = "files" /\ Total(Files) < target
Put(it) == files' = [files EXCEPT ![now] = Append(@, it)] /\ n' = n + 1 /\ UNCHANGED <<now, pre, stack, st, body, want, target, focus, phase>>
Turn(f) == Writing /\ f # now /\ Within = 0 /\ Mine # <<>> /\ now' = f /\ UNCHANGED <<files, pre, stack, st, body, n, want, target, focus, phase>>

\* a file that is put in place is named once
Named(f) == \E g \in Files : \E i \in 1..Len(files[g]) : \E j \in 1..Len(files[g][i].fs) : files[g][i].fs[j] = f
Require(f, g, two) == Writing /\ Put([Item("req") EXCEPT !.fs = IF two THEN <<f, g>> ELSE <<f>>])
InputIt(f) == Writing /\ Has("input") /\ ~Named(f) /\ f # now /\ now \notin Inputs /\ Put([Item("input") EXCEPT !.fs = <<f>>])
LoadClass(f) == Writing /\ now \in Classes /\ Has("class") /\ Put([Item("class") EXCEPT !.fs = <<f>>])
Theorem == Writing /\ Has("thm") /\ Put([Item("thm") EXCEPT !.v = n + 1])
AtBegin == Writing /\ Has("begin") /\ Put([Item("thm") EXCEPT !.v = n + 1, !.w = "begin"])
Colour(m) == Writing /\ Has("col") /\ Put([Item("col") EXCEPT !.m = m, !.v = n + 1])
Macro(m, w, a) == Writing /\ Has("mac") /\ Put([Item("mac") EXCEPT !.m = m, !.w = w, !.v = a])
Cond(w) == Writing /\ Has("cond") /\ Within = 0 /\ ~Ended /\ Put([Item("open") EXCEPT !.w = w])
Mid == phase = "files" /\ Within # 0 /\ (\A l \in Within..Len(Mine) : Mine[l].k # "mid") /\ Put(Item("mid"))
CloseIt == phase = "files" /\ Within # 0 /\ Put([Item("close") EXCEPT !.w = Mine[Within].w])
EndInput == Writing /\ Has("end") /\ Within = 0 /\ ~Ended /\ Mine # <<>> /\ Put(Item("endinput"))
Noise == Writing /\ Has("noise") /\ Put([Item("noise") EXCEPT !.v = n + 1])
ToPre == /\ phase = "files" /\ ~Writing /\ Within = 0 /\ phase' = "pre"
         /\ UNCHANGED <<files, now, pre, stack, st, body, n, want, target, focus>>
CloseUp == phase = "files" /\ ~Writing /\ Within # 0 /\ CloseIt

----------------------------------------------------------------------------
(* the preamble *)
Own == [Item("") EXCEPT !.fs = <<"doc">>]
PutPre(it) == pre' = Append(pre, it) /\ n' = n + 1 /\ UNCHANGED <<files, now, stack, st, body, want, target, focus, phase>>
Preamble == phase = "pre" /\ Len(pre) < PreMax
Classed == \E i \in 1..Len(pre) : pre[i].k = "class"
\* some things may come before the class; the options of a \documentstyle may be packages
DocClass(f, g, w) == /\ phase = "pre" /\ ~Classed
                     /\ PutPre([Item("class") EXCEPT !.w = IF Has("old") THEN w ELSE "class", !.fs = IF Has("old") /\ w = "style" THEN <<f, g>> ELSE <<f>>])
Early == Classed \/ (Has("before") /\ Len(pre) < 2)
UsePackage(f, g, two) == Preamble /\ Early /\ PutPre([Item("req") EXCEPT !.fs = IF two THEN <<f, g>> ELSE <<f>>])
OwnMacro(m, w) == Preamble /\ Early /\ Has("mac") /\ PutPre([Own EXCEPT !.k = "mac", !.m = m, !.w = w, !.v = n + 1])
OwnColour(m) == Preamble /\ Early /\ Has("col") /\ PutPre([Own EXCEPT !.k = "col", !.m = m, !.v = n + 1])
OwnTheorem == Preamble /\ Early /\ Has("thm") /\ PutPre([Own EXCEPT !.k = "thm", !.v = n + 1])
ToRead == /\ phase = "pre" /\ Classed /\ ~Preamble /\ phase' = "read" /\ stack' = <<[f |-> "doc", i |-> 1, skip |-> FALSE, q |-> <<>>]>>
          /\ UNCHANGED <<files, now, pre, st, body, n, want, target, focus>>

----------------------------------------------------------------------------
(* the reader: a stack of open files, each with the place, whether a branch is     *)
(* being skipped, and the files that are to be loaded next                          *)
Top == stack[Len(stack)]
Content(f) == IF f = "doc" THEN pre ELSE files[f]
Below == SubSeq(stack, 1, Len(stack) - 1)
Keep(s, k) == st' = s /\ stack' = k /\ UNCHANGED <<files, now, pre, body, n, want, target, focus, phase>>
Reading == phase = "read" /\ stack # <<>>
LoadNext == /\ Reading /\ Top.q # <<>>
            /\ LET f == Top.q[1]
                   t == [Top EXCEPT !.q = Tail(@)]
               IN IF f \notin Files \/ f \in st.loaded THEN Keep(st, Append(Below, t))
                  ELSE Keep(Load(st, f), Append(Append(Below, t), [f |-> f, i |-> 1, skip |-> FALSE, q |-> <<>>]))
ReadOn == /\ Reading /\ Top.q = <<>> /\ Top.i <= Len(Content(Top.f))
          /\ LET it == Content(Top.f)[Top.i]
                 t == [Top EXCEPT !.i = @ + 1]
             IN CASE it.k = "open" -> Keep(st, Append(Below, [t EXCEPT !.skip = ~Taken(it.w)]))
                  [] it.k = "mid" -> Keep(st, Append(Below, [t EXCEPT !.skip = ~@]))
                  [] it.k = "close" -> Keep(st, Append(Below, [t EXCEPT !.skip = FALSE]))
                  [] Top.skip -> Keep(st, Append(Below, t))
                  [] it.k \in {"req", "input", "class"} -> Keep(st, Append(Below, [t EXCEPT !.q = it.fs]))
                  [] it.k = "endinput" -> Keep(st, Below)
                  [] OTHER -> Keep(Declare(st, it), Append(Below, t))
FileEnd == Reading /\ Top.q = <<>> /\ Top.i > Len(Content(Top.f)) /\ Keep(st, Below)
ToBody == phase = "read" /\ stack = <<>> /\ phase' = "body" /\ UNCHANGED <<files, now, pre, stack, st, body, n, want, target, focus>>

----------------------------------------------------------------------------
Body == phase = "body" /\ Len(body) < Uses
Say(u, said) == body' = Append(body, u) /\ want' = want \o said /\ n' = n + 1 /\ UNCHANGED <<files, now, pre, stack, st, target, focus, phase>>
Word == Body /\ Say([k |-> "word", m |-> "", v |-> n + 1], <<[k |-> "word", v |-> n + 1]>>)
UseMacro(m) == /\ Body /\ st.mac[m] # Undef
               /\ Say([k |-> IF st.mac[m].w = "doc" THEN "own" ELSE "style", m |-> m, v |-> st.mac[m].v],
                      IF st.mac[m].w = "doc" THEN <<[k |-> "said", v |-> st.mac[m].v]>> ELSE <<>>)
AllTheorems == UNION {{files[f][i].v : i \in {i \in 1..Len(files[f]) : files[f][i].k = "thm"}} : f \in Files}
               \cup {pre[i].v : i \in {i \in 1..Len(pre) : pre[i].k = "thm"}}
UseTheorem(t) == Body /\ (\A i \in 1..Len(body) : ~(body[i].k = "thm" /\ body[i].v = t)) /\ Say([k |-> "thm", m |-> "", v |-> t], <<[k |-> IF t \in st.thm THEN "titled" ELSE "named", v |-> t]>>)
UseColour(m) == Body /\ st.col[m] # 0 /\ Say([k |-> "col", m |-> m, v |-> n + 1], <<[k |-> "word", v |-> n + 1]>>)
ToOut == phase = "body" /\ ~Body /\ phase' = "done" /\ UNCHANGED <<files, now, pre, stack, st, body, n, want, target, focus>>
Finish == /\ phase = "done" /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([files |-> files, pre |-> pre, body |-> body, out |-> want, col |-> st.col, order |-> st.order])))
          /\ UNCHANGED <<files, now, pre, stack, st, body, n, want, target, focus>>

Styled == Styles \cup {Missing}
Worth(S) == LET g == {f \in S : files[f] # <<>>} IN IF g = {} THEN S ELSE g \cup {Missing}
Next == \/ Pick \/ Theorem \/ AtBegin \/ Mid \/ CloseIt \/ CloseUp \/ EndInput \/ Noise \/ ToPre
        \/ \E f \in Some(Files) : Turn(f)
        \/ \E f \in Some(Styled), g \in Some(Styled), two \in Some(BOOLEAN) : Require(f, g, two)
        \/ \E f \in Some(Inputs) : InputIt(f)
        \/ \E f \in Some(Classes \cup {Missing}) : LoadClass(f)
        \/ \E m \in Some(Names) : Colour(m)
        \/ \E m \in Some(Names), w \in Some({"new", "prov"}), a \in Some(0..2) : Macro(m, w, a)
        \/ \E w \in Some({"true", "false", "there", "lost"}) : Cond(w)
        \/ \E f \in Some(Worth(Classes)), g \in Some(Worth(Styles)), w \in Some({"class", "class", "style"}) : DocClass(f, g, w)
        \/ \E f \in Some(Worth(Styles)), g \in Some(Worth(Styles)), two \in Some(BOOLEAN) : UsePackage(f, g, two)
        \/ \E m \in Some(Names), w \in Some({"new", "prov"}) : OwnMacro(m, w)
        \/ \E m \in Some(Names) : OwnColour(m)
        \/ OwnTheorem \/ ToRead \/ LoadNext \/ ReadOn \/ FileEnd \/ ToBody \/ Word
        \/ \E m \in Some(Names) : UseMacro(m)
        \/ (\E t \in Some(AllTheorems) : UseTheorem(t))
        \/ \E m \in Some(Names) : UseColour(m)
        \/ ToOut \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* going through with a stack reads what reading recursively does
SameReading == phase \in {"body", "done", "out"} => st = Read(Start, pre, 1)
\* every file is read once at the most, and there is no end of opening
Once == Cardinality(st.loaded) = Len(st.order)
Shallow == Len(stack) <= 1 + Cardinality(Files) /\ \A i, j \in 1..Len(stack) : i # j => stack[i].f # stack[j].f
=============================================================================
