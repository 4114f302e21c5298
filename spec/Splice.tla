------------------------------- MODULE Splice -------------------------------
(* Documents spread over files. A file is a sequence of items; reading it makes  *)
(* its items take effect in place, wherever it is named. Files are written while *)
(* they are read (the live state), and the finished set of files is read again   *)
(* from the start: both have to agree.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Targets, MaxFiles, Macros, Features, FocusSize, Sample, Emit

VARIABLES files, stack, st, dead, focus, target, phase
vars == <<files, stack, st, dead, focus, target, phase>>

Main == 1
Item(k) == [k |-> k, a |-> 0, b |-> 0, how |-> ""]
Start == [out |-> <<>>, flat |-> <<>>, sec |-> <<0, 0, 0>>, mac |-> [m \in Macros |-> 0], env |-> <<>>, begun |-> FALSE, ok |-> TRUE]

\* what an item does on its own
See(s, kind, v) == [s EXCEPT !.out = Append(@, [k |-> kind, v |-> v, sec |-> s.sec, env |-> s.env])]
Bump(sec, l) == [i \in 1..3 |-> IF i < l THEN sec[i] ELSE IF i = l THEN sec[i] + 1 ELSE 0]
\* a subsection needs a section around it (what is numbered without one is not the matter here)
Eff(s, it) ==
  LET f == [s EXCEPT !.flat = Append(@, it)] IN
  CASE it.k = "begin" -> [f EXCEPT !.begun = TRUE, !.ok = @ /\ ~s.begun]
    [] it.k = "word" -> [See(f, "word", it.a) EXCEPT !.ok = @ /\ s.begun]
    [] it.k = "atom" -> [See(f, it.how, it.a) EXCEPT !.ok = @ /\ s.begun]
    [] it.k = "code" -> [See(f, "code", it.a) EXCEPT !.ok = @ /\ s.begun]
    [] it.k = "head" -> [See([f EXCEPT !.sec = Bump(@, it.a)], "head", it.b)
                         EXCEPT !.ok = @ /\ s.begun /\ s.env = <<>> /\ (\A l \in 1..(it.a - 1) : s.sec[l] > 0)]
    [] it.k = "def" -> [f EXCEPT !.mac[it.a] = it.b, !.ok = @ /\ s.env = <<>> /\ CASE it.how = "new" -> s.mac[it.a] = 0
                                                                                    [] it.how = "renew" -> s.mac[it.a] # 0
                                                                                    [] OTHER -> TRUE]
    [] it.k = "use" -> [See(f, "word", s.mac[it.a]) EXCEPT !.ok = @ /\ s.begun /\ s.mac[it.a] # 0]
    [] it.k = "open" -> [f EXCEPT !.env = Append(@, it.how), !.ok = @ /\ s.begun]
    [] it.k = "close" -> IF s.env = <<>> THEN [f EXCEPT !.ok = FALSE] ELSE [f EXCEPT !.env = SubSeq(@, 1, Len(@) - 1), !.ok = @ /\ s.env[Len(s.env)] = it.how]
    [] OTHER -> f      \* comments, false branches, missing files

\* the items of file i from p on, read while the files in open are
RECURSIVE Read(_, _, _, _, _)
Read(fs, i, p, open, s) ==
  IF p > Len(fs[i]) THEN s
  ELSE LET it == fs[i][p] IN
       IF it.k = "end" THEN s
       ELSE Read(fs, i, p + 1, open,
                 IF it.k # "in" THEN Eff(s, it)
                 ELSE IF it.a \in open THEN s
                 ELSE Read(fs, it.a, 1, open \cup {it.a}, s))

----------------------------------------------------------------------------
\* (phase keeps TLC from drawing once and for all)
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
Init == /\ files = <<<<>>>> /\ stack = <<Main>> /\ st = Start /\ dead = FALSE
        /\ focus = (IF Sample THEN {} ELSE Features) /\ target \in Targets /\ phase = (IF Sample THEN "pick" ELSE "fill")
\* a few features at a time
Pick == phase = "pick" /\ phase' = "fill" /\ focus' = RandomSubset(FocusSize, Features) /\ UNCHANGED <<files, stack, st, dead, target>>

Top == stack[Len(stack)]
Open == {stack[i] : i \in 1..Len(stack)}
Size == LET RECURSIVE N(_)
            N(i) == IF i = 0 THEN 0 ELSE Len(files[i]) + N(i - 1)
        IN N(Len(files))
Filling == phase = "fill" /\ Size < target
Put(it) == files' = [files EXCEPT ![Top] = Append(@, it)]
Next1 == Size + 1                   \* a number no other item has
Do(it) == /\ Filling /\ Put(it)
          /\ LET s == Eff(st, it) IN (dead \/ s.ok) /\ st' = (IF dead THEN st ELSE s)
          /\ UNCHANGED <<stack, dead, focus, target, phase>>
Has(x) == x \in focus

Begin == /\ Filling /\ ~dead /\ stack = <<Main>> /\ ~st.begun /\ Do(Item("begin"))
Word == Do([Item("word") EXCEPT !.a = Next1])
Heading(l) == Has("sec") /\ ~dead /\ Do([Item("head") EXCEPT !.a = l, !.b = Next1])
Def(m, how) == Has("mac") /\ ~dead /\ Do([Item("def") EXCEPT !.a = m, !.b = Next1, !.how = how])
Use(m) == Has("mac") /\ Do([Item("use") EXCEPT !.a = m])
OpenEnv(e) == Has("env") /\ ~dead /\ Len(st.env) < 2 /\ Do([Item("open") EXCEPT !.how = e])
CloseEnv == ~dead /\ st.env # <<>> /\ Do([Item("close") EXCEPT !.how = st.env[Len(st.env)]])
\* a file that holds one word, named in the middle of something
Atom(ctx) == Has("ctx") /\ (ctx = "caption" => st.env = <<>>) /\ Do([Item("atom") EXCEPT !.a = Next1, !.how = ctx])
\* things that do not read the file they name
Ghost(how, f) == Has("ghost") /\ Do([Item("ghost") EXCEPT !.how = how, !.a = f])
Code == Has("ghost") /\ ~dead /\ Do([Item("code") EXCEPT !.a = Next1])

NewFile(how) == /\ Filling /\ ~dead /\ Len(files) < MaxFiles /\ Size + 1 < target
                /\ LET n == Len(files) + 1 IN
                   /\ files' = Append([files EXCEPT ![Top] = Append(@, [Item("in") EXCEPT !.a = n, !.how = how])], <<>>)
                   /\ stack' = Append(stack, n)
                /\ UNCHANGED <<st, dead, focus, target, phase>>
\* the end of a file: the next item belongs to the one that named it
Leave == /\ phase = "fill" /\ Len(stack) > 1 /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ dead' = FALSE
         /\ UNCHANGED <<files, st, focus, target, phase>>
\* a file that is being read is named: nothing happens
Circular(i, how) == /\ Has("circ") /\ Filling /\ ~dead /\ i \in Open /\ Put([Item("in") EXCEPT !.a = i, !.how = how])
                    /\ UNCHANGED <<stack, st, dead, focus, target, phase>>
\* macros whose argument is the name of a file: the file must not define anything
Plain(i) == \A p \in 1..Len(files[i]) : files[i][p].k \in {"word", "head", "atom"}
\* a file that has been read is read again
Again(i, how) == /\ Has("again") /\ Filling /\ ~dead /\ i \notin Open
                 /\ (how = "macro" => Plain(i) /\ st.begun)
                 /\ LET s == Read(files, i, 1, Open \cup {i}, st)
                    IN s.ok /\ s.env = st.env /\ Len(s.flat) < 40 /\ st' = s
                 /\ Put([Item("in") EXCEPT !.a = i, !.how = how])
                 /\ UNCHANGED <<stack, dead, focus, target, phase>>
EndInput == /\ Has("dead") /\ Filling /\ ~dead /\ Len(stack) > 1 /\ Put(Item("end")) /\ dead' = TRUE
            /\ UNCHANGED <<stack, st, focus, target, phase>>

\* finish: close what is open
Wrap == /\ phase = "fill" /\ ~Filling /\ stack = <<Main>>
        /\ IF st.begun /\ st.env = <<>> THEN phase' = "done" /\ UNCHANGED <<files, st>>
           ELSE LET it == IF ~st.begun THEN Item("begin") ELSE [Item("close") EXCEPT !.how = st.env[Len(st.env)]]
                IN Put(it) /\ st' = Eff(st, it) /\ UNCHANGED phase
        /\ UNCHANGED <<stack, dead, focus, target>>
Finish == /\ phase = "done" /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([files |-> files, out |-> st.out, flat |-> st.flat])))
          /\ UNCHANGED <<files, stack, st, dead, focus, target>>

Hows == {"input", "ext", "include"}
Ctxs == {"math", "eq", "bold", "note", "caption", "cell", "rows", "group", "arg"}
Next == \/ Pick \/ Begin \/ Word \/ CloseEnv \/ Leave \/ EndInput \/ Wrap \/ Finish
        \/ \E l \in Some(1..3) : Heading(l)
        \/ \E m \in Some(Macros), h \in Some({"new", "renew", "def", "arg"}) : Def(m, h)
        \/ \E m \in Some(Macros) : Use(m)
        \/ \E e \in Some({"quote", "thm", "list"}) : OpenEnv(e)
        \/ \E c \in Some(Ctxs) : Atom(c)
        \/ \E h \in Some({"comment", "false", "missing"}), f \in Some(1..Len(files)) : Ghost(h, f)
        \/ Code
        \/ \E h \in Some(Hows) : NewFile(h)
        \/ \E i \in Some(Open), h \in Some(Hows) : Circular(i, h)
        \/ \E i \in Some(1..Len(files)), h \in Some(Hows \cup {"macro"}) : Again(i, h)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == phase \in {"done", "out"}
\* reading the finished files gives what happened while they were written
ReadsAsWritten == Done => Read(files, Main, 1, {Main}, Start) = st
\* what is read is what the items put in place, one after the other, amount to
RECURSIVE Run(_, _)
Run(s, items) == IF items = <<>> THEN s ELSE Run(Eff(s, items[1]), Tail(items))
InPlace == Done => Run(Start, st.flat) = st
WellFormed == st.ok /\ (Done => st.env = <<>> /\ st.begun)
=============================================================================
