------------------------------ MODULE Spacing ------------------------------
(* What separates a command from its star, its options and its arguments: nothing,     *)
(* blanks, a line end, comments. The text is made one character after the other; it is *)
(* scanned as TeX scans it (new line, middle of a line, skipping blanks) into tokens,  *)
(* and the tokens are read by a reader that skips blanks before whatever may belong to *)
(* the command it reads. The same text without what separates must be read alike, and  *)
(* as it was meant.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, Inline, Blocks, Envs, MaxGap, MaxDepth, Sample, Emit

VARIABLES txt, rd, pl, bd, meant, size, target, phase
vars == <<txt, rd, pl, bd, meant, size, target, phase>>

Pop(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == s[Len(s)]
\* a character: n the command it names (0: \end), g whether it only separates
C(c, n, g) == [c |-> c, n |-> n, g |-> g]

\* the slots of a command: s a star, o an option, O an option that is there, a an argument,
\* u another command, e nothing (the blank after the name), A an argument with a text in
\* it, B and L what an environment contains (L: a list)
Sig == << <<"A">>, <<"o", "A">>, <<"s", "a">>, <<"s", "o", "o", "a">>, <<"a", "A">>, <<"o", "a", "A">>, <<"o", "o", "A">>,
          <<"a", "a", "A">>, <<"O">>, <<"e">>, <<"a">>, <<"o", "a">>, <<"a", "a">>, <<"a", "a", "a">>,
          <<"s", "o", "A">>, <<"s", "a", "O", "a", "u", "A">>, <<"s", "a", "O", "O", "a", "u", "o", "a">>, <<"s", "a", "o", "a", "o">>, <<"A", "A">>,
          <<"a", "B">>, <<"a", "o", "B">>, <<"a", "o", "a", "B">>, <<"a", "o", "L">>, <<"e">>, <<"O">>, <<"o", "a", "a">>,
          <<"s", "a", "a">>, <<"o", "A">>, <<"A">>, <<"s", "a", "O", "a", "a">>, <<"a", "a", "B">>, <<"a", "a", "A">> >>
Items == {24, 25}

----------------------------------------------------------------------------
\* the scanner (N: new line, M: middle of a line, S: skipping blanks). A command's name is
\* one character here, a comment with its line end too ("%"); "/" is a line end
Scan(s, x) ==
  CASE x.c = "c" -> [st |-> "S", tok |-> <<x>>]
    [] x.c = " " -> IF s = "M" THEN [st |-> "S", tok |-> <<C(" ", 0, FALSE)>>] ELSE [st |-> s, tok |-> <<>>]
    [] x.c = "/" -> IF s = "M" THEN [st |-> "N", tok |-> <<C(" ", 0, FALSE)>>]
                    ELSE IF s = "N" THEN [st |-> "N", tok |-> <<C("par", 0, FALSE)>>] ELSE [st |-> "N", tok |-> <<>>]
    [] x.c = "%" -> [st |-> "N", tok |-> <<>>]
    [] OTHER -> [st |-> "M", tok |-> <<x>>]

\* the reader: of each command that is open, the slots to come; within an option or an
\* argument without text nothing is looked at
Start == [st |-> <<>>, in |-> "", at |-> <<>>, bad |-> FALSE]
Rest(s) == IF Len(Top(s)) = 1 THEN Pop(s) ELSE Append(Pop(s), Tail(Top(s)))
Take(r, p, n) == [r EXCEPT !.at = Append(@, <<p, n>>), !.st = Rest(@)]
Sees(r, p, n) == [r EXCEPT !.at = Append(@, <<p, n>>)]
RECURSIVE Read(_, _)
Read(r, t) ==
  CASE t.c = "par" -> [r EXCEPT !.bad = TRUE]
    [] r.in # "" -> IF t.c = r.in THEN [r EXCEPT !.in = ""] ELSE r
    [] r.st = <<>> \/ Top(r.st)[1] \in {"T", "B", "L"} ->
         CASE t.c = "c" /\ t.n # 0 -> [Sees(r, "c", t.n) EXCEPT !.st = Append(@, Sig[t.n])]
           [] t.c = "c" -> IF r.st # <<>> /\ Top(r.st)[1] # "T" THEN [Take(r, "end", 0) EXCEPT !.st = Append(@, <<"a">>)] ELSE [r EXCEPT !.bad = TRUE]
           [] t.c = "}" -> IF r.st # <<>> /\ Top(r.st)[1] = "T" THEN Take(r, "}", 0) ELSE [r EXCEPT !.bad = TRUE]
           [] OTHER -> Sees(r, t.c, 0)
    [] OTHER ->
         LET h == Top(r.st)[1] IN
         CASE t.c = " " /\ h # "u" -> r
           [] h = "s" /\ t.c = "*" -> Take(r, "s", 0)
           [] h \in {"o", "O"} /\ t.c = "[" -> [Take(r, "o", 0) EXCEPT !.in = "]"]
           [] h \in {"s", "o", "e"} -> Read([r EXCEPT !.st = Rest(@)], t)
           [] h = "a" /\ t.c = "{" -> [Take(r, "a", 0) EXCEPT !.in = "}"]
           [] h = "u" /\ t.c = "c" -> Take(r, "u", 0)
           [] h = "A" /\ t.c = "{" -> LET q == Take(r, "A", 0) IN [q EXCEPT !.st = Append(@, <<"T">>)]
           [] OTHER -> [r EXCEPT !.bad = TRUE]
\* a character to scanner and reader
To(q, x) == LET y == Scan(q.sc, x) IN [sc |-> y.st, rd |-> IF y.tok = <<>> THEN q.rd ELSE Read(q.rd, y.tok[1])]

----------------------------------------------------------------------------
\* the writer: bd the slots to be written, of each command that is open, and how much has
\* been written to separate; meant is what the reader is to see; rd and pl the text as it
\* is read, as written and without what separates
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
Init == /\ txt = <<>> /\ rd = [sc |-> "N", rd |-> Start] /\ pl = rd /\ bd = [st |-> <<>>, gap |-> 0, in |-> ""] /\ meant = <<>> /\ size = 0
        /\ target \in Targets /\ phase = "go"
Put(x) == txt' = Append(txt, x) /\ rd' = To(rd, x) /\ pl' = (IF x.g THEN pl ELSE To(pl, x))
Kept == UNCHANGED <<size, target, phase>>
Frame == IF bd.st = <<>> THEN "T" ELSE Top(bd.st)[1]
Free == phase = "go" /\ Frame \in {"T", "B", "L"} /\ bd.in = ""
More == Free /\ size < target
Says(p, n) == meant' = Append(meant, <<p, n>>)
Outside == \A i \in 1..Len(bd.st) : bd.st[i][1] = "B"

Word == ((More /\ Frame # "L") \/ (Free /\ txt # <<>> /\ Top(txt).c = "{")) /\ Put(C("x", 0, FALSE)) /\ Says("x", 0) /\ size' = size + 1 /\ UNCHANGED <<bd, target, phase>>
Blank == More /\ Frame # "L" /\ rd.sc = "M" /\ Put(C(" ", 0, FALSE)) /\ Says(" ", 0) /\ Kept /\ UNCHANGED bd
Call(n) == /\ More /\ Frame # "L" /\ (n \notin Inline => Outside) /\ Len(bd.st) < MaxDepth
           /\ Put(C("c", n, FALSE)) /\ Says("c", n) /\ bd' = [bd EXCEPT !.st = Append(@, Sig[n]), !.gap = 0]
           /\ size' = size + 1 /\ UNCHANGED <<target, phase>>
\* a list begins with an item
Item(n) == /\ Free /\ bd.st # <<>> /\ (Frame = "L" \/ (More /\ Top(bd.st) = <<"B", "L">>))
           /\ Put(C("c", n, FALSE)) /\ Says("c", n)
           /\ bd' = [bd EXCEPT !.st = Pop(@) \o << <<"B", "L">>, Sig[n]>>, !.gap = 0] /\ size' = size + 1 /\ UNCHANGED <<target, phase>>

Slot == phase = "go" /\ ~(Frame \in {"T", "B", "L"}) /\ bd.in = ""
Gap(c) == /\ Slot /\ Frame # "u" /\ bd.gap < MaxGap /\ (c = "/" => rd.sc # "N") /\ Put(C(c, 0, TRUE)) /\ bd' = [bd EXCEPT !.gap = @ + 1] /\ Kept /\ UNCHANGED meant
Skip == Slot /\ Frame \in {"s", "o"} /\ bd.gap = 0 /\ (Len(Top(bd.st)) > 1 => Top(bd.st)[2] # "o" \/ Frame = "s")
        /\ bd' = [bd EXCEPT !.st = Rest(@)] /\ Kept /\ UNCHANGED <<txt, rd, pl, meant>>
Star == Slot /\ Frame = "s" /\ Put(C("*", 0, FALSE)) /\ Says("s", 0) /\ bd' = [bd EXCEPT !.st = Rest(@), !.gap = 0] /\ Kept
Opt == Slot /\ Frame \in {"o", "O"} /\ Put(C("[", 0, FALSE)) /\ Says("o", 0) /\ bd' = [bd EXCEPT !.st = Rest(@), !.in = "]"] /\ Kept
Arg == Slot /\ Frame = "a" /\ Put(C("{", 0, FALSE)) /\ Says("a", 0) /\ bd' = [bd EXCEPT !.st = Rest(@), !.in = "}"] /\ Kept
Shut == phase = "go" /\ bd.in # "" /\ Put(C(bd.in, 0, FALSE)) /\ bd' = [bd EXCEPT !.in = "", !.gap = 0] /\ Kept /\ UNCHANGED meant
Use == Slot /\ Frame = "u" /\ Put(C("c", 99, FALSE)) /\ Says("u", 0) /\ bd' = [bd EXCEPT !.st = Rest(@), !.gap = 0] /\ Kept
None == Slot /\ Frame = "e" /\ Put(C(" ", 0, FALSE)) /\ bd' = [bd EXCEPT !.st = Rest(@), !.gap = 0] /\ Kept /\ UNCHANGED meant
Open == Slot /\ Frame = "A" /\ Put(C("{", 0, FALSE)) /\ Says("A", 0)
        /\ bd' = [bd EXCEPT !.st = Append(Rest(@), <<"T">>), !.gap = 0] /\ Kept
Close == Free /\ bd.st # <<>> /\ Frame = "T" /\ Top(txt).c # "{" /\ Put(C("}", 0, FALSE)) /\ Says("}", 0)
         /\ bd' = [bd EXCEPT !.st = Pop(@), !.gap = 0] /\ Kept
End == Free /\ Frame = "B" /\ Put(C("c", 0, FALSE)) /\ Says("end", 0) /\ bd' = [bd EXCEPT !.st = Append(Pop(@), <<"a">>), !.gap = 0] /\ Kept
Finish == /\ phase = "go" /\ bd.st = <<>> /\ bd.in = "" /\ size >= target /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([txt |-> txt])))
          /\ UNCHANGED <<txt, rd, pl, bd, meant, size, target>>
Next == \/ Word \/ Blank \/ \E n \in Some(Inline \cup Blocks \cup Envs) : Call(n)
        \/ \E n \in Some(Items) : Item(n)
        \/ \E c \in Some({" ", "/", "%"}) : Gap(c)
        \/ Skip \/ Star \/ Opt \/ Arg \/ Shut \/ Use \/ None \/ Open \/ Close \/ End \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what separates is not seen
Vis(a) == SelectSeq(a, LAMBDA x : x[1] # " ")
Good == ~rd.rd.bad
\* the reader sees what is meant
Meant == phase = "out" => Vis(rd.rd.at) = Vis(meant)
\* and all along the same, blanks too, as the reader of the text without what separates
Alike == rd.rd = pl.rd
=============================================================================
