------------------------------- MODULE Outline -------------------------------
(* The document outline: how a flat stream of headings, floats, equations,     *)
(* theorems, lists, appendix and bibliography declarations becomes a numbered  *)
(* tree.  One action per construct the builder consumes; `nodes` is the tree   *)
(* built so far (parent pointers, ids are positions in the document).          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets,     \* document lengths to stop at
          MaxDepth,    \* open environments at a time
          SecCmds,     \* sectioning commands in play
          ParCmds,     \* paragraph commands in play
          EnvKinds,    \* environments in play
          EqEnvs,      \* display equation environments in play
          Specials,    \* subset of {"appendix", "appendices", "bib"}
          Emit         \* print finished documents?

VARIABLES doc,      \* events so far: the document
          nodes,    \* the tree so far
          frames,   \* open containers, innermost last
          sec,      \* section counters by level
          ctr,      \* the other counters
          target, phase
vars == <<doc, nodes, frames, sec, ctr, target, phase>>

SecLevel == [part |-> 0, chapter |-> 1, section |-> 1, subsection |-> 2,
             subsubsection |-> 3, subsubsubsection |-> 4]
ParLevel == [paragraph |-> 1, subparagraph |-> 2]

\* token type and counter of an environment
EnvType ==
  [figure |-> "figure", wrapfigure |-> "figure", subfigure |-> "subfigure",
   table |-> "table", subtable |-> "table", algorithm |-> "algorithm",
   theorem |-> "math_env", lemma |-> "math_env", definition |-> "math_env",
   remark |-> "math_env", proof |-> "math_env", claim |-> "math_env",
   itemize |-> "list", enumerate |-> "list", description |-> "list",
   center |-> "group", quote |-> "quote", abstract |-> "abstract",
   frontmatter |-> "environment", appendices |-> "appendix"]
\* which environments draw a number, and whether a star suppresses it
Counter ==
  [figure |-> "fig", wrapfigure |-> "fig", subfigure |-> "none",
   table |-> "tab", subtable |-> "none", algorithm |-> "alg",
   theorem |-> "math", lemma |-> "math", definition |-> "math",
   remark |-> "math", proof |-> "none", claim |-> "none",
   itemize |-> "none", enumerate |-> "none", description |-> "none",
   center |-> "none", quote |-> "none", abstract |-> "none",
   frontmatter |-> "none", appendices |-> "none"]
Starrable == {"figure", "table", "algorithm", "theorem", "lemma"}
Lists == {"itemize", "enumerate", "description"}

Letters == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
             "Q","R","S","T","U","V","W","X","Y","Z">>

Top == frames[Len(frames)]
SetTop(f) == [frames EXCEPT ![Len(frames)] = f]
NextId == Len(doc) + 1
Grow(e) == doc' = Append(doc, e)
Node(id, k, p, num, lvl, dep, fr, seg) ==
  [id |-> id, k |-> k, par |-> p, num |-> num, lvl |-> lvl, dep |-> dep,
   fr |-> fr, seg |-> seg]

First(app) == IF app THEN (IF sec'[1] = 0 THEN "@" ELSE Letters[sec'[1]])
              ELSE ToString(sec'[1])
FirstNow(app) == IF app THEN (IF sec[1] = 0 THEN "@" ELSE Letters[sec[1]])
                 ELSE ToString(sec[1])

RECURSIVE Dots(_, _)
Dots(s, n) == IF n < 2 THEN "" ELSE Dots(s, n-1) \o "." \o ToString(s[n])

RECURSIVE PopTo(_, _)
PopTo(st, l) == IF st = <<>> \/ st[Len(st)].l < l THEN st
                ELSE PopTo(SubSeq(st, 1, Len(st)-1), l)

\* where running content goes
Target(f) == IF f.pars # <<>> THEN f.pars[Len(f.pars)].id
             ELSE IF f.secs # <<>> THEN f.secs[Len(f.secs)].id
             ELSE f.root

Frame(id, k, ld, app) ==
  [id |-> id, k |-> k, ld |-> ld, app |-> app, top |-> id, root |-> id,
   secs |-> <<>>, pars |-> <<>>, seg |-> 0]

Init == /\ doc = <<>> /\ nodes = <<>>
        /\ frames = <<Frame(0, "doc", 0, FALSE)>>
        /\ sec = [l \in 1..4 |-> 0]
        /\ ctr = [part |-> 0, math |-> 0, eq |-> 0, tab |-> 0, fig |-> 0, alg |-> 0]
        /\ target \in Targets /\ phase = "go"

Going == phase = "go" /\ Len(doc) < target
\* frames in which prose, headings, floats may appear
Prose == Top.k \notin Lists
HeadOk == Top.k \in {"doc", "center", "quote", "theorem", "proof", "appendices", "frontmatter"}

(* -------- headings -------- *)
Heading(c, star) ==
  /\ Going /\ HeadOk
  /\ LET l == SecLevel[c]
         f == Top
         st == PopTo(f.secs, l)
         p == IF st = <<>> THEN f.root ELSE st[Len(st)].id
     IN
     /\ ~(f.app /\ l = 1 /\ ~star /\ sec[1] = 26)     \* letters run out after Z
     /\ Grow([k |-> "sec", v |-> c, star |-> star])
     /\ IF star \/ l = 0 THEN sec' = sec
        ELSE sec' = [m \in 1..4 |-> IF m < l THEN sec[m]
                                    ELSE IF m = l THEN sec[m] + 1 ELSE 0]
     /\ ctr' = [ctr EXCEPT !.part = IF l = 0 /\ ~star THEN @ + 1 ELSE @,
                           !.math = IF l = 1 /\ ~star THEN 0 ELSE @]
     /\ nodes' = Append(nodes, Node(NextId, "section", p,
                   IF star THEN "" ELSE IF l = 0 THEN ToString(ctr'.part)
                   ELSE First(f.app) \o Dots(sec', l), l, 0, f.id, f.seg))
     /\ frames' = SetTop([f EXCEPT !.secs = Append(st, [l |-> l, id |-> NextId]), !.pars = <<>>])
     /\ UNCHANGED <<target, phase>>

Para(c, star) ==
  /\ Going /\ HeadOk
  /\ LET l == ParLevel[c]
         f == Top
         st == PopTo(f.pars, l)
         p == IF st # <<>> THEN st[Len(st)].id
              ELSE IF f.secs # <<>> THEN f.secs[Len(f.secs)].id ELSE f.root
     IN
     /\ Grow([k |-> "par", v |-> c, star |-> star])
     /\ nodes' = Append(nodes, Node(NextId, "paragraph", p, "", l, 0, f.id, f.seg))
     /\ frames' = SetTop([f EXCEPT !.pars = Append(st, [l |-> l, id |-> NextId])])
     /\ UNCHANGED <<sec, ctr, target, phase>>

(* -------- content -------- *)
Txt == /\ Going /\ Prose
       /\ Grow([k |-> "txt", v |-> "", star |-> FALSE])
       /\ nodes' = Append(nodes, Node(NextId, "text", Target(Top), "", 0, 0, Top.id, Top.seg))
       /\ UNCHANGED <<frames, sec, ctr, target, phase>>

Eq(v, star) ==
  /\ Going /\ Prose
  /\ Grow([k |-> "eq", v |-> v, star |-> star])
  /\ ctr' = IF star THEN ctr ELSE [ctr EXCEPT !.eq = @ + 1]
  /\ nodes' = Append(nodes, Node(NextId, "equation", Target(Top),
                 IF star THEN "" ELSE ToString(ctr'.eq), 0, 0, Top.id, Top.seg))
  /\ UNCHANGED <<frames, sec, target, phase>>

Allowed(env, outer) ==
  CASE env \in {"subfigure", "subtable"} -> outer \in {"figure", "table"}
    [] env \in {"figure", "table", "wrapfigure", "algorithm", "frontmatter", "abstract"} ->
          outer \in {"doc", "center", "quote", "theorem", "appendices", "item"}
    [] env = "appendices" -> FALSE
    [] OTHER -> outer \notin Lists

Begin(env, star) ==
  /\ Going /\ Len(frames) <= MaxDepth /\ Prose
  /\ Allowed(env, Top.k)
  /\ star => env \in Starrable
  /\ LET c == Counter[env]
         ty == EnvType[env]
         numbered == c # "none" /\ ~(star /\ c = "math")   \* figure*, table*, algorithm* still float with a number
         ld == IF env \in Lists THEN Top.ld + 1 ELSE Top.ld
     IN
     /\ Grow([k |-> "begin", v |-> env, star |-> star])
     /\ ctr' = IF ~numbered THEN ctr ELSE [ctr EXCEPT ![c] = @ + 1]
     /\ nodes' = Append(nodes, Node(NextId, ty, Target(Top),
                   IF ~numbered THEN ""
                   ELSE IF c = "math" THEN FirstNow(Top.app) \o "." \o ToString(ctr'.math)
                   ELSE ToString(ctr'[c]), 0, IF env \in Lists THEN ld ELSE 0, Top.id, Top.seg))
     /\ frames' = Append(frames, Frame(NextId, env, ld, Top.app))
     /\ UNCHANGED <<sec, target, phase>>

Item ==
  /\ phase = "go"
  /\ \/ Going /\ (Top.k \in Lists \/ Top.k = "item")
     \/ Top.k \in Lists /\ Top.seg = 0          \* a list needs at least one item
  /\ LET fs == IF Top.k = "item" THEN SubSeq(frames, 1, Len(frames)-1) ELSE frames
         l == fs[Len(fs)]
     IN /\ Grow([k |-> "item", v |-> "", star |-> FALSE])
        /\ nodes' = Append(nodes, Node(NextId, "item", l.id, "", 0, 0, l.id, l.seg))
        /\ frames' = Append([fs EXCEPT ![Len(fs)] = [l EXCEPT !.seg = 1]], Frame(NextId, "item", l.ld, l.app))
        /\ UNCHANGED <<sec, ctr, target, phase>>

End ==
  /\ phase = "go" /\ Len(frames) > 1
  /\ ~(Top.k \in Lists /\ Top.seg = 0)
  /\ LET n == IF Top.k = "item" THEN 2 ELSE 1     \* \end{list} also closes its last item
     IN frames' = SubSeq(frames, 1, Len(frames)-n)
  /\ Grow([k |-> "end", v |-> (IF Top.k = "item" THEN frames[Len(frames)-1].k ELSE Top.k), star |-> FALSE])
  /\ UNCHANGED <<nodes, sec, ctr, target, phase>>

(* -------- appendix and bibliography (document level) -------- *)
AppSeen == \E i \in 1..Len(nodes) : nodes[i].k = "appendix"
Appendix ==
  /\ "appendix" \in Specials /\ Going /\ Len(frames) = 1 /\ ~AppSeen
  /\ Grow([k |-> "appendix", v |-> "", star |-> FALSE])
  /\ nodes' = Append(nodes, Node(NextId, "appendix", Top.top, "", 0, 0, Top.id, Top.seg))
  /\ sec' = [l \in 1..4 |-> 0]
  /\ frames' = SetTop([Top EXCEPT !.app = TRUE, !.secs = <<>>, !.pars = <<>>,
                                  !.root = NextId, !.seg = @ + 1])
  /\ UNCHANGED <<ctr, target, phase>>
BeginAppendices ==
  /\ "appendices" \in Specials /\ Going /\ Len(frames) = 1 /\ ~AppSeen
  /\ Grow([k |-> "begin", v |-> "appendices", star |-> FALSE])
  /\ nodes' = Append(nodes, Node(NextId, "appendix", Top.top, "", 0, 0, Top.id, Top.seg))
  /\ sec' = [l \in 1..4 |-> 0]
  /\ frames' = Append(SetTop([Top EXCEPT !.app = TRUE, !.secs = <<>>, !.pars = <<>>,
                                  !.root = NextId, !.seg = @ + 1]),
                      Frame(NextId, "appendices", 0, TRUE))
  /\ UNCHANGED <<ctr, target, phase>>
Bib ==
  /\ "bib" \in Specials /\ Going /\ Len(frames) = 1
  /\ Grow([k |-> "bib", v |-> "", star |-> FALSE])
  /\ nodes' = Append(nodes, Node(NextId, "bibliography", Top.top, "", 0, 0, Top.id, Top.seg))
  /\ frames' = SetTop([Top EXCEPT !.secs = <<>>, !.pars = <<>>, !.seg = @ + 1])
  /\ UNCHANGED <<sec, ctr, target, phase>>

Done == /\ phase = "go" /\ Len(doc) >= target /\ Len(frames) = 1
        /\ phase' = "done"
        /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, nodes |-> nodes])))
        /\ UNCHANGED <<doc, nodes, frames, sec, ctr, target>>

Next == \/ \E c \in SecCmds, s \in BOOLEAN : Heading(c, s)
        \/ \E c \in ParCmds : Para(c, FALSE)
        \/ Txt
        \/ \E v \in EqEnvs, s \in BOOLEAN : Eq(v, s)
        \/ \E e \in EnvKinds, s \in BOOLEAN : Begin(e, s)
        \/ Item \/ End
        \/ Appendix \/ BeginAppendices \/ Bib
        \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
N == 1..Len(nodes)
IsHead(n) == n.k = "section"
\* a heading encloses, within its container and segment, everything up to the
\* next heading of its own or a higher rank
Under(n, cand) ==
  LET C == {m \in N : nodes[m].k \in cand /\ nodes[m].fr = n.fr /\ nodes[m].seg = n.seg
                      /\ nodes[m].id < n.id}
  IN C
SecParent(n) ==
  LET S == {m \in Under(n, {"section"}) :
              /\ nodes[m].lvl < n.lvl
              /\ \A k \in Under(n, {"section"}) :
                   nodes[k].id > nodes[m].id => nodes[k].lvl > nodes[m].lvl}
  IN IF S = {} THEN 0 ELSE nodes[CHOOSE m \in S : \A k \in S : nodes[k].id <= nodes[m].id].id
RootOf(n) ==   \* container, or the appendix declared in it
  LET A == {m \in N : nodes[m].k = "appendix" /\ nodes[m].fr = n.fr /\ nodes[m].id < n.id}
  IN IF A # {} THEN nodes[CHOOSE m \in A : TRUE].id ELSE n.fr
Hierarchy ==
  \A i \in N : LET n == nodes[i] IN
    IsHead(n) => n.par = (IF SecParent(n) # 0 THEN SecParent(n) ELSE RootOf(n))
\* running content belongs to the nearest preceding heading of its container
Nearest ==
  \A i \in N : LET n == nodes[i]
                   H == Under(n, {"section", "paragraph"}) IN
    (n.k \notin {"section", "paragraph", "appendix", "bibliography", "item"}) =>
       n.par = (IF H = {} THEN RootOf(n)
                ELSE nodes[CHOOSE m \in H : \A k \in H : nodes[k].id <= nodes[m].id].id)
\* order and conservation: one node per content-bearing event, in document order
Conserved ==
  LET E == SelectSeq([i \in 1..Len(doc) |-> i], LAMBDA i : doc[i].k # "end")
  IN /\ Len(nodes) = Len(E)
     /\ \A i \in N : nodes[i].id = E[i] /\ nodes[i].par < nodes[i].id
NoDup(k) == \A i, j \in N : (i # j /\ nodes[i].k = k /\ nodes[j].k = k
                             /\ nodes[i].num # "") => nodes[i].num # nodes[j].num
Unique == /\ \A k \in {"equation", "figure", "table", "algorithm", "math_env"} : NoDup(k)
          /\ \A i, j \in N : (i # j /\ IsHead(nodes[i]) /\ IsHead(nodes[j])
                /\ (nodes[i].lvl = 0) = (nodes[j].lvl = 0) /\ nodes[i].num # "")
                  => nodes[i].num # nodes[j].num
\* simple counters number the document-order occurrences 1, 2, 3, ...
Sequential ==
  \A k \in {"equation", "figure", "table", "algorithm"} :
    LET S == SelectSeq(nodes, LAMBDA n : n.k = k /\ n.num # "")
    IN \A i \in 1..Len(S) : S[i].num = ToString(i)
StarsSilent == \A i \in N : doc[nodes[i].id].star /\ nodes[i].k \in {"section", "equation", "math_env"}
                    => nodes[i].num = ""
DepthOk == \A i \in N : nodes[i].k = "list" =>
  LET Anc[x \in 0..Len(doc)] ==
        IF x = 0 THEN 0
        ELSE LET m == CHOOSE j \in N : nodes[j].id = x
             IN (IF nodes[m].k = "list" THEN 1 ELSE 0) + Anc[nodes[m].par]
  IN nodes[i].dep = Anc[nodes[i].id]
=============================================================================
