------------------------------- MODULE Anchors -------------------------------
(* Environments, lists, floats, captions and footnotes as nested containers,    *)
(* and what the labels standing in them are attached to.  `cur` is the element  *)
(* a label met now would belong to; containers save and restore it, headings    *)
(* and captions replace it.  References, citations and links are leaves that    *)
(* carry keys and notes.                                                        *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, MaxDepth,
          Envs,       \* environments in play (domain of Env below)
          Heads,      \* heading commands in play
          Leaves,     \* kinds of reference in play (domain of RefKind)
          Eqs,        \* display equations in play
          Boxes,      \* subset of {"foot", "cap", "tab"}
          Emit

VARIABLES doc, nodes, frames, cur, target, phase
vars == <<doc, nodes, frames, cur, target, phase>>

E(k, name, num, title, anchor) ==
  [k |-> k, name |-> name, num |-> num, title |-> title, anchor |-> anchor]
\* source environment |-> token type, name, whether it draws a number, may have
\* a title, and takes the labels that stand in it
Env ==
  [theorem     |-> E("math_env", "theorem", TRUE, TRUE, TRUE),
   lemma       |-> E("math_env", "lemma", TRUE, TRUE, TRUE),
   theoremstar |-> E("math_env", "theorem", FALSE, TRUE, TRUE),
   proof       |-> E("math_env", "proof", FALSE, TRUE, TRUE),
   thm         |-> E("math_env", "Theorem", TRUE, TRUE, TRUE),    \* \newtheorem{thm}{Theorem}
   rmk         |-> E("math_env", "Remark", FALSE, TRUE, TRUE),    \* \newtheorem*{rmk}{Remark}
   fact        |-> E("environment", "Fact", FALSE, TRUE, TRUE),   \* \newtheorem{fact}{Fact}
   figure      |-> E("figure", "", TRUE, FALSE, TRUE),
   figurestar  |-> E("figure", "", TRUE, FALSE, TRUE),
   wrapfigure  |-> E("figure", "", TRUE, FALSE, TRUE),
   subfigure   |-> E("subfigure", "", FALSE, FALSE, TRUE),
   table       |-> E("table", "", TRUE, FALSE, TRUE),
   algorithm   |-> E("algorithm", "algorithm", TRUE, FALSE, TRUE),
   itemize     |-> E("list", "itemize", FALSE, FALSE, TRUE),
   enumerate   |-> E("list", "enumerate", FALSE, FALSE, TRUE),
   description |-> E("list", "description", FALSE, FALSE, TRUE),
   quote       |-> E("quote", "", FALSE, FALSE, TRUE),
   center      |-> E("group", "", FALSE, FALSE, TRUE),
   minipage    |-> E("group", "", FALSE, FALSE, TRUE),
   begingroup  |-> E("group", "", FALSE, FALSE, TRUE),
   mybox       |-> E("environment", "mybox", FALSE, FALSE, TRUE), \* nothing known about it
   wrapq       |-> E("quote", "", FALSE, FALSE, TRUE),            \* \newenvironment around quote
   abstract    |-> E("abstract", "", FALSE, FALSE, FALSE)]
Lists == {"itemize", "enumerate", "description"}
Floats == {"figure", "figurestar", "wrapfigure", "subfigure", "table", "algorithm"}

\* kind of reference |-> token type, keys it may have, notes it may have
RefKind ==
  [ref      |-> [k |-> "ref", n |-> {1}, notes |-> {0}],
   cref     |-> [k |-> "ref", n |-> 1..3, notes |-> {0}],
   hyperref |-> [k |-> "ref", n |-> {1}, notes |-> {1}],
   cite     |-> [k |-> "citation", n |-> 1..4, notes |-> {0, 1, 2}],
   url      |-> [k |-> "url", n |-> {1}, notes |-> {0}],
   href     |-> [k |-> "url", n |-> {1}, notes |-> {1}],
   doi      |-> [k |-> "url", n |-> {1}, notes |-> {0}]]

Top == frames[Len(frames)]
NextId == Len(doc) + 1
Here == Top.id
F(id, k, saved) == [id |-> id, k |-> k, saved |-> saved, seg |-> 0]
Node(k, name, num, title, n, note) ==
  [id |-> NextId, k |-> k, name |-> name, num |-> num, title |-> title, par |-> Here,
   n |-> n, note |-> note, labels |-> <<>>, end |-> 0, anchor |-> FALSE]
Ev(k, v) == [k |-> k, v |-> v, title |-> FALSE, n |-> 0, note |-> 0]

Init == /\ doc = <<>> /\ nodes = <<>> /\ cur = 0
        /\ frames = <<F(0, "doc", 0)>>
        /\ target \in Targets /\ phase = "go"

Going == phase = "go" /\ Len(doc) < target
InList == Top.k \in Lists
Inside(ks) == \E i \in 1..Len(frames) : frames[i].k \in ks
Label(ns, owner, l) == [i \in 1..Len(ns) |-> IF ns[i].id = owner
                          THEN [ns[i] EXCEPT !.labels = Append(@, l)] ELSE ns[i]]

Txt == /\ Going /\ (InList => Top.seg = 0)
       /\ doc' = Append(doc, Ev("txt", ""))
       /\ nodes' = Append(nodes, Node("text", "", FALSE, FALSE, 0, 0))
       /\ UNCHANGED <<frames, cur, target, phase>>

\* a label is attached to the current element; owner 0 is the document itself
Lab == /\ Going /\ (InList => Top.seg = 0)
       /\ doc' = Append(doc, Ev("label", ""))
       /\ nodes' = Append(Label(nodes, cur, NextId),
                          [Node("label", "", FALSE, FALSE, 0, 0) EXCEPT !.par = cur])
       /\ UNCHANGED <<frames, cur, target, phase>>

Heading(c, lab) ==
  /\ Going /\ Len(frames) = 1
  /\ doc' = Append(doc, [Ev("head", c) EXCEPT !.n = IF lab THEN 1 ELSE 0])
  /\ nodes' = Append(nodes, [Node(IF c = "paragraph" THEN "paragraph" ELSE "section", "",
                                  c \notin {"paragraph", "sectionstar"}, FALSE, 0, 0)
                             EXCEPT !.labels = IF lab THEN <<NextId>> ELSE <<>>,
                                    !.anchor = TRUE, !.end = NextId])
  /\ cur' = NextId
  /\ UNCHANGED <<frames, target, phase>>

Eq(v, nl) ==
  /\ Going /\ ~InList /\ ~Inside({"cap"})
  /\ doc' = Append(doc, [Ev("eq", v) EXCEPT !.n = nl])
  /\ nodes' = Append(nodes, [Node("equation", "", v \in {"equation", "align"}, FALSE, 0, 0)
                             EXCEPT !.labels = IF nl = 0 THEN <<>> ELSE IF nl = 1 THEN <<NextId>>
                                               ELSE <<NextId, 1000 + NextId>>])
  /\ UNCHANGED <<frames, cur, target, phase>>

Ref(v, n, note) ==
  /\ Going /\ (InList => Top.seg = 0)
  /\ doc' = Append(doc, [Ev("ref", v) EXCEPT !.n = n, !.note = note])
  /\ nodes' = Append(nodes, Node(RefKind[v].k, "", FALSE, FALSE, n, note))
  /\ UNCHANGED <<frames, cur, target, phase>>

\* a table body takes no labels: one standing in a cell goes to the current element
Tab(lab) ==
  /\ "tab" \in Boxes /\ Going /\ ~InList /\ ~Inside({"cap"})
  /\ doc' = Append(doc, [Ev("tab", "") EXCEPT !.n = IF lab THEN 1 ELSE 0])
  /\ nodes' = Append(IF lab THEN Label(nodes, cur, NextId) ELSE nodes,
                     Node("tabular", "", FALSE, FALSE, 0, 0))
  /\ UNCHANGED <<frames, cur, target, phase>>

Allowed(env) ==
  CASE env = "subfigure" -> Top.k \in {"figure", "figurestar"}
    [] env \in Floats \cup {"abstract"} -> ~Inside(Floats \cup {"foot", "cap", "abstract"})
    [] OTHER -> ~Inside({"cap"})
Begin(env, title) ==
  /\ Going /\ Len(frames) <= MaxDepth /\ ~InList
  /\ Allowed(env) /\ (title => Env[env].title)
  /\ doc' = Append(doc, [Ev("begin", env) EXCEPT !.title = title])
  /\ nodes' = Append(nodes, [Node(Env[env].k, Env[env].name, Env[env].num, title, 0, 0)
                             EXCEPT !.anchor = Env[env].anchor])
  /\ frames' = Append(frames, F(NextId, env, cur))
  /\ cur' = IF Env[env].anchor THEN NextId ELSE cur
  /\ UNCHANGED <<target, phase>>

Item(title) ==
  /\ phase = "go"
  /\ \/ Going /\ (InList \/ Top.k = "item")
     \/ InList /\ Top.seg = 0
  /\ LET fs == IF Top.k = "item" THEN SubSeq(frames, 1, Len(frames) - 1) ELSE frames
         back == IF Top.k = "item" THEN Top.saved ELSE cur
         l == fs[Len(fs)]
         ns == IF Top.k = "item"
               THEN [i \in 1..Len(nodes) |-> IF nodes[i].id = Top.id
                       THEN [nodes[i] EXCEPT !.end = NextId] ELSE nodes[i]]
               ELSE nodes
     IN /\ doc' = Append(doc, [Ev("item", "") EXCEPT !.title = title])
        /\ nodes' = Append(ns, [Node("item", "", FALSE, title, 0, 0) EXCEPT !.par = l.id, !.anchor = TRUE])
        /\ frames' = Append([fs EXCEPT ![Len(fs)].seg = 1], F(NextId, "item", back))
  /\ cur' = NextId
  /\ UNCHANGED <<target, phase>>

Foot == /\ "foot" \in Boxes /\ Going /\ ~InList /\ Len(frames) <= MaxDepth
        /\ ~Inside({"foot"})
        /\ doc' = Append(doc, Ev("foot", ""))
        /\ nodes' = Append(nodes, [Node("footnote", "", FALSE, FALSE, 0, 0) EXCEPT !.anchor = TRUE])
        /\ frames' = Append(frames, F(NextId, "foot", cur))
        /\ cur' = NextId
        /\ UNCHANGED <<target, phase>>
Cap == /\ "cap" \in Boxes /\ Going /\ Top.k \in Floats
       /\ doc' = Append(doc, Ev("cap", ""))
       /\ nodes' = Append(nodes, [Node("caption", "", FALSE, FALSE, 0, 0) EXCEPT !.anchor = TRUE])
       /\ frames' = Append(frames, F(NextId, "cap", cur))
       /\ cur' = NextId
       /\ UNCHANGED <<target, phase>>

End ==
  /\ phase = "go" /\ Len(frames) > 1 /\ ~(InList /\ Top.seg = 0)
  /\ LET m == IF Top.k = "item" THEN 2 ELSE 1
         closed == {frames[i].id : i \in (Len(frames) - m + 1)..Len(frames)}
         out == frames[Len(frames) - m + 1]
     IN /\ frames' = SubSeq(frames, 1, Len(frames) - m)
        /\ nodes' = [i \in 1..Len(nodes) |-> IF nodes[i].id \in closed
                       THEN [nodes[i] EXCEPT !.end = NextId] ELSE nodes[i]]
        \* a caption stays current after its end, everything else gives way
        /\ cur' = IF Top.k = "cap" THEN Top.id ELSE out.saved
  /\ doc' = Append(doc, Ev("end", Top.k))
  /\ UNCHANGED <<target, phase>>

Done == /\ phase = "go" /\ Len(doc) >= target /\ Len(frames) = 1
        /\ phase' = "done"
        /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, nodes |-> nodes])))
        /\ UNCHANGED <<doc, nodes, frames, cur, target>>

Next == \/ Txt \/ Lab
        \/ \E c \in Heads, b \in BOOLEAN : Heading(c, b)
        \/ \E v \in Eqs, n \in 0..2 : Eq(v, n)
        \/ \E v \in Leaves : \E n \in RefKind[v].n, t \in RefKind[v].notes : Ref(v, n, t)
        \/ \E b \in BOOLEAN : Tab(b)
        \/ \E e \in Envs, b \in BOOLEAN : Begin(e, b)
        \/ \E b \in BOOLEAN : Item(b)
        \/ Foot \/ Cap \/ End \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
N == 1..Len(nodes)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
ById(i) == nodes[CHOOSE j \in N : nodes[j].id = i]
OpenAt(n, i) == n.id < i /\ (n.end = 0 \/ n.end > i)
ParOpenAt(n, i) == n.par = 0 \/ OpenAt(ById(n.par), i)
\* what a label at i belongs to, read off the document alone: of the containers
\* open around it and of the headings and captions already seen in those, the latest
Owner(i) ==
  LET C == {0} \cup
           {m \in 1..i : \E j \in N :
              /\ nodes[j].id = m /\ nodes[j].anchor
              /\ \/ OpenAt(nodes[j], i)
                 \/ nodes[j].k \in {"section", "paragraph", "caption"} /\ m < i /\ ParOpenAt(nodes[j], i)}
  IN Max(C)
OwnersRight ==
  \A j \in N : (nodes[j].k = "label" \/ (nodes[j].k = "tabular" /\ doc[nodes[j].id].n = 1)) =>
    LET i == nodes[j].id
        o == Owner(i)
    IN \A m \in N : (\E x \in 1..Len(nodes[m].labels) : nodes[m].labels[x] = i) <=> nodes[m].id = o
Once == \A j, m \in N : j # m =>
          \A x \in 1..Len(nodes[j].labels), y \in 1..Len(nodes[m].labels) :
             nodes[j].labels[x] # nodes[m].labels[y]
InOrder == \A j \in N : \A x \in 1..(Len(nodes[j].labels) - 1) :
             nodes[j].labels[x] < nodes[j].labels[x + 1]
\* containers nest: a node stands inside the innermost container open at its place
Nested == \A j \in N : nodes[j].k # "label" =>
            LET C == {0} \cup {m \in 1..(nodes[j].id - 1) :
                        \E x \in N : /\ nodes[x].id = m /\ OpenAt(nodes[x], nodes[j].id)
                                     /\ nodes[x].k \in {"math_env", "environment", "figure", "subfigure",
                                          "table", "algorithm", "list", "item", "quote", "group",
                                          "abstract", "footnote", "caption"}}
            IN nodes[j].par = Max(C)
ItemsInLists == \A j \in N : nodes[j].k = "item" => ById(nodes[j].par).k = "list"
Restored == phase = "done" => (cur = 0 \/ ById(cur).k \in {"section", "paragraph"})
=============================================================================
