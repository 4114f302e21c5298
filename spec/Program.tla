------------------------------ MODULE Program ------------------------------
(* Documents that program: macros with a starred form, names that are put       *)
(* together, switches, loops, paired delimiters, token lists. A document is a    *)
(* sequence of items, written while it is read (the live state); the finished    *)
(* document, read from the start by a reader that only ever looks at the next    *)
(* items, has to say the same, and so has the text that is left when everything  *)
(* programmed is worked out by hand.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Targets, Names, MaxDepth, Features, FocusSize, Sample, Emit

VARIABLES doc, live, want, focus, target, phase
vars == <<doc, live, want, focus, target, phase>>

Undef == [f |-> "none", v |-> 0]
Item(k) == [k |-> k, m |-> 0, f |-> "", w |-> "", v |-> 0]
\* frames: what is open, and whether what stands in it is read
Frame(k, on) == [k |-> k, on |-> on]
Start == [out |-> <<>>, mac |-> [m \in Names |-> Undef], fr |-> <<>>, todo |-> "", got |-> Undef]

Starred == {"star", "starh", "stara", "pre"}
TakesArg == {"arg", "stara"}
On(s) == \A i \in 1..Len(s.fr) : s.fr[i].on
In(s, ks) == \E i \in 1..Len(s.fr) : s.fr[i].k \in ks
See(s, k, v) == IF On(s) THEN [s EXCEPT !.out = Append(@, [k |-> k, v |-> v, b |-> In(s, {"bold"}), m |-> In(s, {"math"})])] ELSE s

----------------------------------------------------------------------------
(* The reader. After the name of a macro that has a starred form it waits for a  *)
(* star (todo = "star"), after that for an argument, if one is taken (todo = "arg"). *)
Settle(s, starred) ==
  LET d == s.got
      p == IF d.f = "pre" THEN See(s, "p", d.v) ELSE s
      q == CASE d.f \in Starred -> See(p, IF starred THEN "s" ELSE "n", d.v)
             [] OTHER -> See(p, "w", d.v)
  IN [q EXCEPT !.todo = IF d.f \in TakesArg THEN "arg" ELSE "", !.got = IF d.f \in TakesArg THEN d ELSE Undef]

Plainly(s, it) ==
  CASE it.k = "word" -> See(s, "w", it.v)
    [] it.k = "star" -> See(s, "*", 0)
    [] it.k = "blank" -> s
    [] it.k = "def" -> IF On(s) THEN [s EXCEPT !.mac[it.m] = [f |-> it.f, v |-> it.v]] ELSE s
    [] it.k = "let" -> IF On(s) THEN [s EXCEPT !.mac[it.m] = s.mac[it.v]] ELSE s
    [] it.k = "use" -> IF On(s) /\ s.mac[it.m].f \in Starred THEN [s EXCEPT !.todo = "star", !.got = s.mac[it.m]]
                       ELSE IF On(s) /\ s.mac[it.m].f # "none" THEN Settle([s EXCEPT !.got = s.mac[it.m]], FALSE)
                       ELSE s
    [] it.k = "open" -> CASE it.f = "loop" -> [s EXCEPT !.fr = Append(@, Frame("loop", FALSE))]
                          [] it.f = "cond" -> [s EXCEPT !.fr = Append(@, Frame("cond", it.w \in {"ifbool", "iftoggle"}))]
                          [] it.f = "pair" -> LET l == See(s, "L", it.v) IN [l EXCEPT !.fr = Append(@, [k |-> "pair", on |-> TRUE, v |-> it.v])]
                          [] OTHER -> [s EXCEPT !.fr = Append(@, Frame(it.f, TRUE))]
    [] it.k = "mid" -> [s EXCEPT !.fr[Len(s.fr)].on = ~@]
    [] it.k = "close" -> LET t == s.fr[Len(s.fr)]
                             u == [s EXCEPT !.fr = SubSeq(@, 1, Len(@) - 1)]
                         IN IF t.k = "pair" THEN See(u, "R", t.v) ELSE u
    [] OTHER -> s                                \* assignments to switches and token lists

RECURSIVE Step(_, _)
Step(s, it) ==
  CASE s.todo = "star" /\ it.k = "blank" -> s
    [] s.todo = "star" /\ it.k = "star" -> Settle([s EXCEPT !.todo = ""], TRUE)
    [] s.todo = "star" -> Step(Settle([s EXCEPT !.todo = ""], FALSE), it)
    [] s.todo = "arg" /\ it.k = "blank" -> s
    [] s.todo = "arg" /\ it.k = "word" -> See([s EXCEPT !.todo = "", !.got = Undef], "a", it.v)
    [] OTHER -> Plainly(s, it)
RECURSIVE Steps(_, _)
Steps(s, items) == IF items = <<>> THEN s ELSE Steps(Step(s, items[1]), Tail(items))
\* the end of the document is no star
End(s) == IF s.todo = "star" THEN Settle([s EXCEPT !.todo = ""], FALSE) ELSE s

----------------------------------------------------------------------------
\* (phase keeps TLC from drawing once and for all)
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
Init == /\ doc = <<>> /\ live = Start /\ want = <<>>
        /\ focus = (IF Sample THEN {} ELSE Features) /\ target \in Targets /\ phase = (IF Sample THEN "pick" ELSE "fill")
Pick == phase = "pick" /\ phase' = "fill" /\ focus' = RandomSubset(FocusSize, Features) /\ UNCHANGED <<doc, live, want, target>>
Has(x) == x \in focus
Filling == phase = "fill" /\ Len(doc) < target
Next1 == Len(doc) + 1
\* write items; what they are meant to say
Say(k, v) == [k |-> k, v |-> v, b |-> In(live, {"bold"}), m |-> In(live, {"math"})]
Write(items, said) ==
  /\ doc' = doc \o items /\ live' = End(Steps(live, items))
  /\ want' = IF On(live) THEN want \o said ELSE want
  /\ UNCHANGED <<focus, target, phase>>

Word == Filling /\ Write(<<[Item("word") EXCEPT !.v = Next1]>>, <<Say("w", Next1)>>)
Defining == Filling /\ ~In(live, {"bold", "math", "pair", "loop"})
Made(m) == \E i \in 1..Len(doc) : doc[i].k = "def" /\ doc[i].w = "mk" /\ doc[i].m = m
Def(m, f, w) ==
  /\ ~Made(m) /\ Defining /\ (Has("macros") \/ Has(f))
  /\ (w \in {"cs", "csnew", "named", "mk"} => Has("names"))
  /\ (w = "mk" => f = "plain" /\ \A i \in 1..Len(doc) : ~(doc[i].k \in {"def", "let"} /\ doc[i].m = m)) /\ (w = "named" => f # "pre")
  /\ Write(<<[Item("def") EXCEPT !.m = m, !.f = f, !.w = w, !.v = Next1]>>, <<>>)
\* another name for a macro
Let(m, n, w) ==
  /\ Defining /\ Has("let") /\ m # n /\ ~Made(m) /\ ~Made(n) /\ live.mac[n].f # "none" /\ (w = "cs" => Has("names"))
  /\ Write(<<[Item("let") EXCEPT !.m = m, !.v = n, !.w = w]>>, <<>>)
Use(m, w, star, blank) ==
  LET d == live.mac[m]
      u == [Item("use") EXCEPT !.m = m, !.w = w, !.f = d.f]
      st == (IF blank THEN <<Item("blank")>> ELSE <<>>) \o (IF star THEN <<Item("star")>> ELSE <<>>)
      ar == IF d.f \in TakesArg THEN <<[Item("word") EXCEPT !.v = Len(doc) + 1 + Len(st) + 1]>> ELSE <<>>
      said == (CASE d.f = "pre" -> <<Say("p", d.v)>> [] OTHER -> <<>>)
              \o (CASE d.f \in Starred -> <<Say(IF star THEN "s" ELSE "n", d.v)>>
                    [] OTHER -> <<Say("w", d.v)>>)
              \o (IF star /\ ~(d.f \in Starred) THEN <<Say("*", 0)>> ELSE <<>>)
              \o (IF ar # <<>> THEN <<Say("a", ar[1].v)>> ELSE <<>>)
  IN /\ Filling /\ d.f # "none" /\ (w # "direct" => Has("names"))
     /\ (star /\ ~(d.f \in Starred) => d.f = "plain" /\ ~In(live, {"math"}))
     /\ Write(<<u>> \o st \o ar, said)
Depth == Len(live.fr)
Open(f, w, v) ==
  /\ Filling /\ Depth < MaxDepth /\ Has(f) /\ Len(doc) + 2 < target
  /\ (f = "pair") = In(live, {"math"})
  /\ (f \in {"math", "bold"} => ~In(live, {f}))
  /\ (f \in {"cond", "loop"} => ~In(live, {"math"}))
  /\ Write(<<[Item("open") EXCEPT !.f = f, !.w = w, !.v = v]>>, IF f = "pair" THEN <<Say("L", v)>> ELSE <<>>)
Top == live.fr[Depth]
IsFirst == LET RECURSIVE Back(_, _)
               Back(i, d) == IF doc[i].k = "close" THEN Back(i - 1, d + 1)
                             ELSE IF doc[i].k = "open" THEN (IF d = 0 THEN TRUE ELSE Back(i - 1, d - 1))
                             ELSE IF doc[i].k = "mid" /\ d = 0 THEN FALSE ELSE Back(i - 1, d)
           IN Back(Len(doc), 0)
Mid == phase = "fill" /\ Depth > 0 /\ Top.k = "cond" /\ IsFirst /\ Write(<<Item("mid")>>, <<>>)
Filled == doc[Len(doc)].k \notin {"open", "blank"} /\ (doc[Len(doc)].k = "mid" => Top.k = "cond")
Close == /\ phase = "fill" /\ Depth > 0 /\ Filled /\ (Top.k = "cond" => ~IsFirst)
         /\ Write(<<Item("close")>>, IF Top.k = "pair" THEN <<[Say("R", Top.v) EXCEPT !.b = In(live, {"bold"})]>> ELSE <<>>)
\* nothing is said by assignments
Assign(w) == Filling /\ Has("assign") /\ ~In(live, {"math", "loop"}) /\ Write(<<[Item("assign") EXCEPT !.w = w, !.v = Next1]>>, <<>>)

Wrap == /\ phase = "fill" /\ ~Filling
        /\ IF Depth = 0 THEN phase' = "done" /\ UNCHANGED <<doc, live, want, focus, target>>
           ELSE IF Top.k = "cond" /\ IsFirst THEN Write(<<Item("mid")>>, <<>>)
           ELSE IF ~Filled THEN Write(<<[Item("word") EXCEPT !.v = Next1]>>, <<Say("w", Next1)>>)
           ELSE Close
Finish == /\ phase = "done" /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> live.out])))
          /\ UNCHANGED <<doc, live, want, focus, target>>

Forms == {"plain", "arg", "star", "starh", "stara", "pre"}
Next == \/ Pick \/ Word \/ Mid \/ Close \/ Wrap \/ Finish
        \/ \E m \in Some(Names), f \in Some(Forms), w \in Some({"new", "def", "robust", "cs", "csnew", "named", "mk"}) : Def(m, f, w)
        \/ \E m \in Some(Names), n \in Some(Names), w \in Some({"direct", "cs"}) : Let(m, n, w)
        \/ \E m \in Some(Names), w \in Some({"direct", "cs", "nameuse"}), s \in Some(BOOLEAN), b \in Some(BOOLEAN) : Use(m, w, s, b)
        \/ \E w \in Some({"ifbool", "notbool", "iftoggle", "nottoggle"}) : Open("cond", w, 0)
        \/ \E w \in Some({"foreach", "semi", "nested", "forloop"}) : Open("loop", w, 0)
        \/ \E w \in Some({"inline", "display"}) : Open("math", w, 0)
        \/ Open("bold", "", 0)
        \/ \E w \in Some({"", "star", "size"}), v \in Some({1, 2, 3}) : Open("pair", w, v)
        \/ \E w \in Some({"toks", "bool", "toggle"}) : Assign(w)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == phase \in {"done", "out"}
\* the reader understands what was meant
AsMeant == live.out = want
\* reading it again from the start gives the same
ReadsAsWritten == Done => End(Steps(Start, doc)) = live
\* nothing is left waiting or open
Kept == live.todo = "" /\ (Done => live.fr = <<>>)
=============================================================================
