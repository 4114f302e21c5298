-------------------------------- MODULE Prose --------------------------------
(* Running text.  A document is a stream of atoms (words, inline math, links,  *)
(* citations, ...), white space, silent layout commands, comments, and nested  *)
(* containers: font commands, brace groups, boxes, footnotes, environments.    *)
(* The model says which atoms come out, in which order, inside which           *)
(* containers, in which styles, and which neighbours stay separate words.      *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, MaxDepth,
          Styles,      \* font commands with an argument in play
          Switches,    \* old-style switches in play
          Containers,  \* other containers in play
          Atoms,       \* atom kinds in play
          Whites,      \* kinds of white space in play
          Silent,      \* kinds of commands without visible output in play
          BoxNames,    \* saved boxes in play
          Emit

VARIABLES doc, stack, out, gap, target, phase,
          saved        \* box -> what was last saved in it
vars == <<doc, stack, out, gap, target, phase, saved>>

(* ------------------------------ vocabulary ------------------------------ *)
StyleOf == [textbf |-> "bold", textit |-> "italic", textsl |-> "italic", emph |-> "italic",
            texttt |-> "monospace", textsc |-> "small-caps", textsf |-> "sans-serif",
            textrm |-> "normal", textup |-> "normal", underline |-> "underline",
            textsuperscript |-> "superscript", textsubscript |-> "subscript", sout |-> "line-through",
            textcolorA |-> "color=red", textcolorB |-> "color={RGB:1,2,3}", textcolorC |-> "color=blue!50"]
\* switch -> <<axis, style>>
SwitchOf == [bf |-> <<"font", "bold">>, it |-> <<"font", "italic">>, tt |-> <<"font", "monospace">>,
             sc |-> <<"font", "small-caps">>, sf |-> <<"font", "sans-serif">>, rm |-> <<"font", "normal">>,
             sl |-> <<"font", "italic">>, em |-> <<"font", "italic">>,
             bfseries |-> <<"font", "bold">>, itshape |-> <<"font", "italic">>, slshape |-> <<"font", "italic">>,
             ttfamily |-> <<"font", "monospace">>, sffamily |-> <<"font", "sans-serif">>, scshape |-> <<"font", "small-caps">>,
             tiny |-> <<"size", "xx-small">>, scriptsize |-> <<"size", "x-small">>,
             footnotesize |-> <<"size", "small">>, small |-> <<"size", "small">>,
             large |-> <<"size", "large">>, Large |-> <<"size", "large">>, LARGE |-> <<"size", "large">>,
             huge |-> <<"size", "xx-large">>, Huge |-> <<"size", "xx-large">>,
             colorA |-> <<"color", "color=red">>, colorB |-> <<"color", "color={RGB:1,2,3}">>]
AxisOf(s) == SwitchOf[s][1]
ValOf(s) == SwitchOf[s][2]
\* the switches that put one font in the place of another
OldFonts == {"bf", "it", "tt", "sc", "sf", "rm", "sl", "em"}
FontStyles == {ValOf(s) : s \in {t \in DOMAIN SwitchOf : AxisOf(t) = "font"}}
ColorStyles == {"color=red", "color={RGB:1,2,3}", "color=blue!50"}

\* accents: combining character (canonical composition is up to the reader)
AccentOf == [acute |-> 769, grave |-> 768, uml |-> 776, circ |-> 770, tilde |-> 771, macron |-> 772, dot |-> 775,
             cedilla |-> 807, caron |-> 780, breve |-> 774, ring |-> 778, dacute |-> 779, ogonek |-> 808,
             dotbelow |-> 803, barbelow |-> 817]
LetterOf == [ss |-> 223, o |-> 248, O |-> 216, l |-> 322, L |-> 321, aa |-> 229, AA |-> 197, ae |-> 230, AE |-> 198,
             oe |-> 339, OE |-> 338, NG |-> 330, ng |-> 331, TH |-> 222, th |-> 254, DH |-> 208, dh |-> 240,
             DJ |-> 272, dj |-> 273, i |-> 305]
SymbolOf == [S |-> 167, copyright |-> 169, textbullet |-> 8226, textendash |-> 8211, textemdash |-> 8212,
             textregistered |-> 174, texttrademark |-> 8482, textdegree |-> 176, ldots |-> 8230, textellipsis |-> 8230,
             textexclamdown |-> 161, textquestiondown |-> 191, textasciitilde |-> 126, textasciicircum |-> 94,
             textless |-> 60, textgreater |-> 62, textsection |-> 167, textparagraph |-> 182, textdagger |-> 8224,
             textdaggerdbl |-> 8225, textcopyright |-> 169, textsterling |-> 163, texteuro |-> 8364,
             guillemotleft |-> 171, guillemotright |-> 187, textperiodcentered |-> 183, textordfeminine |-> 170,
             textmu |-> 181, textonehalf |-> 189, textonequarter |-> 188, textpm |-> 177, texttimes |-> 215,
             textdiv |-> 247, checkmark |-> 10003]
EscapeOf == [percent |-> 37, amp |-> 38, hash |-> 35, dollar |-> 36, under |-> 95, lbrace |-> 123, rbrace |-> 125,
             hat |-> 94, tilde |-> 126]
UniOf == [eacute |-> 233, zhong |-> 20013, omega |-> 969, emdash |-> 8212, smile |-> 128512]
Bases == <<"a", "e", "o", "u", "n", "c", "s", "i", "E", "Z", "i!", "j!">>   \* i!, j!: without their dots
BaseCode == <<97, 101, 111, 117, 110, 99, 115, 105, 69, 90, 105, 106>>
\* words: form, name, base letter, and the characters they consist of
Plain == [form |-> "plain", name |-> "", base |-> "", cs |-> <<>>]
Words(f) ==
   CASE f = "word" -> {Plain}
     [] f = "accent" -> {[form |-> "accent", name |-> a, base |-> Bases[b], cs |-> <<BaseCode[b], AccentOf[a]>>]
                           : a \in DOMAIN AccentOf, b \in 1..Len(Bases)}
     [] f = "letter" -> {[form |-> "letter", name |-> a, base |-> "", cs |-> <<LetterOf[a]>>] : a \in DOMAIN LetterOf}
     [] f = "symbol" -> {[form |-> "symbol", name |-> a, base |-> "", cs |-> <<SymbolOf[a]>>] : a \in DOMAIN SymbolOf}
     [] f = "escape" -> {[form |-> "escape", name |-> a, base |-> "", cs |-> <<EscapeOf[a]>>] : a \in DOMAIN EscapeOf}
     [] f = "unicode" -> {[form |-> "unicode", name |-> a, base |-> "", cs |-> <<UniOf[a]>>] : a \in DOMAIN UniOf}
     [] f = "quoted" -> {[form |-> "quoted", name |-> q, base |-> "", cs |-> <<>>] : q \in {"single", "double"}}
     [] OTHER -> {Plain}
IsWord(a) == a \in {"word", "accent", "letter", "symbol", "escape", "unicode", "quoted"}

\* containers that leave no trace of their own
Boxes == {"mbox", "fbox", "makebox", "raisebox", "parbox", "framebox", "colorbox", "scalebox", "text"}
Edgy == Boxes \cup DOMAIN StyleOf
Transparent == {"group", "center"} \cup Boxes
\* containers whose content is set in a context of its own
Fresh == {"footnote"}
\* containers an environment cannot stand in
Inline == DOMAIN StyleOf \cup Boxes \cup {"href", "footnote", "group"}
EnvKinds == {"center", "quote", "theorem", "item"}
Invisible == DOMAIN StyleOf \cup Transparent \cup {"doc"}

(* -------------------------------- frames -------------------------------- *)
\* sw: the switches in force in this container, in order of first use of their axis
Frame(k) == [k |-> k, sty |-> IF k \in DOMAIN StyleOf THEN {StyleOf[k]} ELSE {}, sw |-> <<>>, at |-> Len(doc) + 1, need |-> Len(doc) + 1]
FrameStyles(f) == f.sty \cup {ValOf(f.sw[i]) : i \in 1..Len(f.sw)}
Top == Len(stack)
Inner == stack[Top]
LastFresh == LET F == {i \in 1..Top : stack[i].k \in Fresh} IN IF F = {} THEN 0 ELSE CHOOSE i \in F : \A j \in F : j <= i
StylesOf(S) == UNION {FrameStyles(stack[i]) : i \in S}
Now == StylesOf({j \in 1..Top : j >= LastFresh})
Outside == StylesOf(1..(Top - 1))
AxesOutside == {AxisOf(s) : s \in UNION {{stack[i].sw[j] : j \in 1..Len(stack[i].sw)} : i \in 1..(Top - 1)}}
Path == SelectSeq([i \in 1..Top |-> stack[i].k], LAMBDA k : k \notin Invisible)

Going == phase = "go" /\ Len(doc) < target
Ev(k, v) == [k |-> k, v |-> v, id |-> Len(doc) + 1, w |-> Plain]
\* where in the document an atom of the output is asked for
Pos(n) == IF out[n].via = 0 THEN out[n].id ELSE out[n].via
Last == IF doc = <<>> THEN "" ELSE doc[Len(doc)].k
Within(S) == \E i \in 1..Top : stack[i].k \in S

Init == /\ doc = <<>> /\ out = <<>> /\ gap = "start"
        /\ stack = <<[k |-> "doc", sty |-> {}, sw |-> <<>>, at |-> 0, need |-> 0]>>
        /\ target \in Targets /\ phase = "go"
        /\ saved = [b \in BoxNames |-> [id |-> 0, c |-> ""]]

Atom(a) ==
   /\ Going
   /\ (~IsWord(a) => ~Within({"href"}))
   /\ \E w \in Words(a) :
         /\ doc' = Append(doc, [Ev("atom", a) EXCEPT !.w = w])
         /\ out' = Append(out, [id |-> Len(doc) + 1, a |-> a, cs |-> w.cs, styles |-> Now, path |-> Path, sep |-> gap, via |-> 0])
   /\ gap' = "none"
   /\ UNCHANGED <<stack, target, phase, saved>>

\* white space; kind decides what is typed, and all of them separate words
White(v) == /\ Going /\ (v \in {"par", "break"} => ~Within(Inline))
            /\ doc' = Append(doc, Ev("white", v))
            \* at the edges of an argument white space belongs to the argument
            /\ gap' = IF gap = "start" THEN gap
                      ELSE IF \A i \in 1..Top : stack[i].k \in Edgy => \E n \in 1..Len(out) : Pos(n) > stack[i].at THEN "white"
                      ELSE IF gap = "none" THEN "quiet" ELSE gap
            /\ UNCHANGED <<stack, out, target, phase, saved>>
Quiet(v) == /\ Going /\ doc' = Append(doc, Ev("quiet", v))
            /\ (v # "inline" => ~Within(Inline))
            /\ gap' = IF gap = "none" THEN "quiet" ELSE gap
            /\ UNCHANGED <<stack, out, target, phase, saved>>

Open(k) ==
   /\ Going /\ Top <= MaxDepth
   /\ ~Within({"mbox"})
   \* "\\bf {x}" is read as "\\bf{x}", which is not what TeX makes of it: not generated
   /\ (k = "group" => ~\E i \in 1..Len(doc) : /\ doc[i].k = "switch"
                                             /\ \A j \in (i+1)..Len(doc) : doc[j].k \in {"white", "quiet"})
   /\ (k \in EnvKinds => ~Within(Inline))
   /\ (k \in Fresh => ~Within(Fresh \cup {"href"}))
   /\ (k = "href" => ~Within({"href"}))
   \* a font style is asked for once, and none is asked to undo another
   /\ (k \in DOMAIN StyleOf =>
         /\ StyleOf[k] \notin StylesOf(1..Top)
         /\ ~(StyleOf[k] = "normal" /\ StylesOf(1..Top) \cap FontStyles # {})
         /\ ~(StyleOf[k] \in FontStyles /\ "normal" \in StylesOf(1..Top))
         /\ ~(StyleOf[k] \in ColorStyles /\ StylesOf(1..Top) \cap ColorStyles # {}))
   /\ stack' = Append(stack, Frame(k))
   /\ doc' = Append(doc, Ev("open", k))
   /\ UNCHANGED <<out, gap, target, phase, saved>>
Close ==
   /\ phase = "go" /\ Top > 1
   \* every container shows something
   /\ \E n \in 1..Len(out) : Pos(n) > Inner.need
   /\ stack' = SubSeq(stack, 1, Top - 1)
   /\ doc' = Append(doc, Ev("close", Inner.k))
   /\ gap' = IF Inner.k \in Edgy /\ gap = "white" THEN "quiet" ELSE gap
   /\ UNCHANGED <<out, target, phase, saved>>

\* series, shape and family combine
FontAxis(v) == CASE v = "bold" -> "series" [] v \in {"italic", "small-caps"} -> "shape" [] v \in {"monospace", "sans-serif"} -> "family" [] OTHER -> "all"
Combines(s) == /\ s \in {"bfseries", "itshape", "slshape", "ttfamily", "sffamily", "scshape"} /\ Inner.sw = <<>>
               /\ \A v \in (Outside \cup Inner.sty) \cap FontStyles : FontAxis(v) \notin {"all", FontAxis(ValOf(s))}
\* a switch holds until its container ends or another of its axis takes over
Switch(s) ==
   /\ Going /\ Top > 1 /\ ~Within({"mbox", "href"})
   /\ (AxisOf(s) \notin AxesOutside \/ Combines(s))
   /\ LET sw == Inner.sw
          old == {i \in 1..Len(sw) : AxisOf(sw[i]) = AxisOf(s)}
          new == IF old = {} THEN Append(sw, s) ELSE [sw EXCEPT ![Len(sw)] = s]
      IN /\ (old = {} \/ (old = {Len(sw)} /\ ValOf(sw[Len(sw)]) # ValOf(s)))
         /\ (AxisOf(s) = "font" => /\ ((Outside \cup Inner.sty) \cap FontStyles = {} \/ Combines(s))
                                   /\ (old # {} => s \in OldFonts))
         /\ (AxisOf(s) = "color" => (Outside \cup Inner.sty) \cap ColorStyles = {})
         /\ stack' = [stack EXCEPT ![Top].sw = new, ![Top].need = Len(doc) + 1]
   /\ doc' = Append(doc, Ev("switch", s))
   /\ gap' = IF gap = "none" THEN "quiet" ELSE gap
   /\ UNCHANGED <<out, target, phase, saved>>

\* a box saved under a name: a word, a bold word, or a word and a formula
Save(b, c) == /\ Going /\ Top = 1
              /\ doc' = Append(doc, [Ev("save", b) EXCEPT !.w = [Plain EXCEPT !.name = c]])
              /\ saved' = [saved EXCEPT ![b] = [id |-> Len(doc) + 1, c |-> c]]
              /\ gap' = IF gap = "none" THEN "quiet" ELSE gap
              /\ UNCHANGED <<stack, out, target, phase>>
Use(b) == /\ Going /\ saved[b].id # 0 /\ ~Within({"href"}) /\ (saved[b].c = "bold" => Now \cap FontStyles = {})
          /\ doc' = Append(doc, Ev("use", b))
          /\ LET A(a, st, sep) == [id |-> saved[b].id, a |-> a, cs |-> <<>>, styles |-> Now \cup st, path |-> Path, sep |-> sep,
                                  via |-> Len(doc) + 1]
             IN out' = out \o <<A("word", IF saved[b].c = "bold" THEN {"bold"} ELSE {}, gap)>>
                           \o (IF saved[b].c = "math" THEN <<A("math", {}, "none")>> ELSE <<>>)
          /\ gap' = "none"
          /\ UNCHANGED <<stack, target, phase, saved>>

Done == /\ phase = "go" /\ Len(doc) >= target /\ Top = 1 /\ out # <<>>
        /\ phase' = "done"
        /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> out])))
        /\ UNCHANGED <<doc, stack, out, gap, target, saved>>
Next == \/ \E a \in Atoms : Atom(a)
        \/ \E v \in Whites : White(v)
        \/ \E v \in Silent : Quiet(v)
        \/ \E k \in Styles \cup Containers : Open(k)
        \/ \E s \in Switches : Switch(s)
        \/ \E b \in BoxNames : Use(b) \/ \E c \in {"plain", "bold", "math"} : Save(b, c)
        \/ Close \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
D == 1..Len(doc)
Level(i) == Cardinality({j \in 1..(i-1) : doc[j].k = "open"}) - Cardinality({j \in 1..(i-1) : doc[j].k = "close"})
\* the openings position i lies in
Enclosing(i) == {j \in 1..(i-1) : doc[j].k = "open" /\ \A m \in (j+1)..i : Level(m) > Level(j)}
\* the switches in force at i: same container as i or one around it, not overridden
InForce(i) == {j \in 1..(i-1) : /\ doc[j].k = "switch"
                                /\ Enclosing(j) \subseteq Enclosing(i)
                                /\ ~\E m \in (j+1)..(i-1) : /\ doc[m].k = "switch" /\ Enclosing(m) = Enclosing(j)
                                                            /\ AxisOf(doc[m].v) = AxisOf(doc[j].v)}
\* every atom comes out once, in order; a saved box comes out at its uses, as last saved
Conserved == LET want == SelectSeq([i \in D |-> i], LAMBDA i : doc[i].k = "atom")
                 plain == SelectSeq([n \in 1..Len(out) |-> n], LAMBDA n : out[n].via = 0)
             IN /\ Len(plain) = Len(want) /\ \A n \in 1..Len(plain) : out[plain[n]].id = want[n]
                /\ \A n \in 2..Len(out) : Pos(n-1) < Pos(n) \/ (Pos(n-1) = Pos(n) /\ out[n].via # 0)
                /\ \A i \in D : doc[i].k = "use" => \E n \in 1..Len(out) : out[n].via = i
                /\ \A n \in 1..Len(out) : out[n].via # 0 =>
                     /\ doc[out[n].id].k = "save" /\ doc[out[n].id].v = doc[out[n].via].v
                     /\ ~\E m \in (out[n].id + 1)..(out[n].via - 1) : doc[m].k = "save" /\ doc[m].v = doc[out[n].via].v
\* its styles are those of the constructs around it, and only those
StylesScoped == \A n \in 1..Len(out) :
   LET i == Pos(n)
       E == Enclosing(i)
       F == {j \in E : doc[j].v \in Fresh}
       lim == IF F = {} THEN 0 ELSE CHOOSE j \in F : \A m \in F : m <= j
   IN out[n].styles = {StyleOf[doc[j].v] : j \in {m \in E : m >= lim /\ doc[m].v \in DOMAIN StyleOf}}
                        \cup {ValOf(doc[j].v) : j \in {m \in InForce(i) : m >= lim}}
                        \cup (IF out[n].via # 0 /\ doc[out[n].id].w.name = "bold" THEN {"bold"} ELSE {})
\* white space anywhere between two atoms separates them, unless it stands at the edge of an argument
AtEdge(m, p, q) == \E j \in Enclosing(m) : doc[j].v \in Edgy /\ ~(j \in Enclosing(p) /\ j \in Enclosing(q))
Separated == \A n \in 2..Len(out) : LET p == Pos(n-1)  q == Pos(n) IN
   (out[n].sep = "white") <=> \E m \in (p + 1)..(q - 1) : doc[m].k = "white" /\ ~AtEdge(m, p, q)
PathLen == \A n \in 1..Len(out) : Len(out[n].path) = Cardinality({j \in Enclosing(Pos(n)) : doc[j].v \notin Invisible})
=============================================================================
