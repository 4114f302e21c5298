-------------------------------- MODULE Lexer --------------------------------
(* Where LaTeX stops being LaTeX: comments, comment environments, verbatim and    *)
(* lstlisting blocks and \verb.  The document is a sequence of atoms; `mode` says how the next one is  *)
(* read.  The same atom (a percent sign, \end{verbatim}, a brace, a macro) is    *)
(* output, skipped, or part of some code depending on the mode alone.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, MaxDepth,
          Junk,      \* atoms that would mean something as LaTeX; used in code and comments only
          Ctxs,      \* containers around running text
          Hide,      \* whether there are comment environments
          Emit

VARIABLES doc,    \* atoms so far
          modes,  \* the mode each atom was read in
          out,    \* what the reader is to deliver, in order
          code,   \* atoms of the code being read
          mode, ctx, target, phase
vars == <<doc, modes, out, code, mode, ctx, target, phase>>

Blocks == {"verbatim", "lstlisting"}
Silent == {"comment", "hidden"}
Init == /\ doc = <<>> /\ modes = <<>> /\ out = <<>> /\ code = <<>>
        /\ mode = "text" /\ ctx = <<>> /\ target \in Targets /\ phase = "go"

Going == phase = "go" /\ Len(doc) < target
Here == Len(doc) + 1
A(k, v) == [k |-> k, v |-> v]
Put(a, m) == doc' = Append(doc, a) /\ modes' = Append(modes, m)
Words(c) == {i \in 1..Len(c) : c[i].k = "w"}

\* an atom read as part of code
InCode(a) == /\ Put(a, mode) /\ code' = Append(code, [k |-> a.k, v |-> a.v, id |-> Here])
             /\ UNCHANGED <<out, mode, ctx, target, phase>>
Skip(a) == Put(a, mode) /\ UNCHANGED <<out, code, mode, ctx, target, phase>>
Text(a, o) == /\ Put(a, mode) /\ out' = out \o o
              /\ UNCHANGED <<code, mode, ctx, target, phase>>
To(a, m) == /\ Put(a, mode) /\ mode' = m /\ code' = <<>>
            /\ UNCHANGED <<out, ctx, target, phase>>
Flush(a, kind) ==
  /\ Words(code) # {}                      \* code that is all white space is not interesting
  /\ Put(a, mode)
  /\ out' = Append(out, [k |-> kind, v |-> code])
  /\ mode' = "text" /\ code' = <<>>
  /\ UNCHANGED <<ctx, target, phase>>

Word == LET a == A("w", "") IN
  /\ (Going \/ (phase = "go" /\ mode \in Blocks \cup {"verb"} /\ Words(code) = {}))
  /\ CASE mode = "text" -> Text(a, <<[k |-> "word", v |-> <<[k |-> "w", v |-> "", id |-> Here]>>]>>)
       [] mode \in Silent -> Skip(a)
       [] OTHER -> InCode(a)
Newline == LET a == A("nl", "") IN
  /\ Going \/ (phase = "go" /\ mode = "comment")
  /\ CASE mode = "text" -> Text(a, <<>>)
       [] mode = "hidden" -> Skip(a)
       [] mode = "comment" -> To(a, "text")
       [] mode \in Blocks -> InCode(a)
       [] OTHER -> FALSE                   \* \verb ends on its line
Pct == LET a == A("pct", "") IN
  /\ Going
  /\ CASE mode = "text" -> To(a, "comment")
       [] mode \in Silent -> Skip(a)
       [] OTHER -> InCode(a)
\* \% and \\ : in text a percent sign and a line break
Esc(v) == LET a == A("esc", v) IN
  /\ Going
  /\ CASE mode = "text" -> Text(a, IF v = "pct" THEN <<[k |-> "pct", v |-> <<>>]>> ELSE <<>>)
       [] mode \in Silent -> Skip(a)
       [] OTHER -> InCode(a)
BeginBlock(b) == LET a == A("begin", b) IN
  /\ Going
  /\ CASE mode = "text" -> To(a, b)
       [] mode \in Silent -> Skip(a)
       [] OTHER -> InCode(a)
EndBlock(b) == LET a == A("end", b) IN
  /\ phase = "go" /\ (Going \/ mode = b)
  /\ CASE mode = "text" -> FALSE
       [] mode \in Silent -> Skip(a)
       [] mode = b -> Flush(a, "block")
       [] OTHER -> InCode(a)
\* \verb<delimiter>, and the delimiter that ends it
\* a comment environment ends at the first \end{comment} on a line of its own
BeginHidden == /\ Hide /\ Going
               /\ LET a == A("begin", "comment")
                  IN CASE mode = "text" -> To(a, "hidden") [] mode \in Silent -> Skip(a) [] OTHER -> InCode(a)
EndHidden == /\ Hide /\ phase = "go" /\ (Going \/ mode = "hidden") /\ mode # "text"
             /\ LET a == A("end", "comment")
                IN CASE mode = "hidden" -> To(a, "text") [] mode = "comment" -> Skip(a) [] OTHER -> InCode(a)
\* the same not on a line of its own
NoEnd == /\ Hide /\ Going /\ mode \in Silent /\ Skip(A("noend", "comment"))
Verb == LET a == A("verb", "") IN
  /\ phase = "go" /\ (Going \/ mode = "verb")
  /\ CASE mode = "text" -> To(a, "verb")
       [] mode = "verb" -> Flush(A("verbend", ""), "inline")
       [] mode \in Silent -> Skip(a)
       [] OTHER -> InCode(a)
Jnk(v) == LET a == A("junk", v) IN
  /\ Going /\ mode # "text"
  /\ IF mode \in Silent THEN Skip(a) ELSE InCode(a)

Open(c) == /\ Going /\ mode = "text" /\ Len(ctx) < MaxDepth
           /\ Put(A("open", c), mode) /\ ctx' = Append(ctx, c)
           /\ UNCHANGED <<out, code, mode, target, phase>>
Close == /\ phase = "go" /\ mode = "text" /\ ctx # <<>>
         /\ Put(A("close", ctx[Len(ctx)]), mode) /\ ctx' = SubSeq(ctx, 1, Len(ctx) - 1)
         /\ UNCHANGED <<out, code, mode, target, phase>>

Done == /\ phase = "go" /\ Len(doc) >= target /\ mode = "text" /\ ctx = <<>>
        /\ phase' = "done"
        /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, modes |-> modes, out |-> out])))
        /\ UNCHANGED <<doc, modes, out, code, mode, ctx, target>>

Next == \/ BeginHidden \/ EndHidden \/ NoEnd \/ Word \/ Newline \/ Pct \/ Verb \/ Close \/ Done
        \/ \E v \in {"pct", "break"} : Esc(v)
        \/ \E b \in Blocks : BeginBlock(b) \/ EndBlock(b)
        \/ \E v \in Junk : Jnk(v)
        \/ \E c \in Ctxs : Open(c)
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
D == 1..Len(doc)
\* a comment runs from a percent sign read as text to the end of the line, nothing else is one
Commented(i) == \E p \in 1..(i - 1) :
   doc[p].k = "pct" /\ modes[p] = "text" /\ \A q \in (p + 1)..(i - 1) : doc[q].k # "nl"
CommentsRight == \A i \in D : (modes[i] = "comment") <=> Commented(i)
\* what is hidden lies between \begin{comment} read as text and the first \end{comment} after it
Hidden(i) == \E p \in 1..(i - 1) : /\ doc[p] = A("begin", "comment") /\ modes[p] = "text"
                                   /\ \A q \in (p + 1)..(i - 1) : doc[q] # A("end", "comment")
HiddenRight == \A i \in D : (modes[i] = "hidden") <=> Hidden(i)
\* every word outside comments is delivered once, in order; no other is
Ids(s) == [i \in 1..Len(s) |-> s[i].id]
RECURSIVE Flat(_)
Flat(o) == IF o = <<>> THEN <<>>
           ELSE SelectSeq(o[1].v, LAMBDA a : a.k = "w") \o Flat(Tail(o))
Delivered == Ids(Flat(out)) \o Ids(SelectSeq(code, LAMBDA a : a.k = "w"))
Conserved == Delivered = SelectSeq([i \in D |-> i], LAMBDA i : doc[i].k = "w" /\ modes[i] \notin Silent)
\* code is the contiguous run of source atoms between its delimiters
Contiguous == \A j \in 1..Len(out) : out[j].k \in {"block", "inline"} =>
   LET c == out[j].v IN
   /\ \A x \in 1..(Len(c) - 1) : c[x + 1].id = c[x].id + 1
   /\ doc[c[1].id - 1].k = (IF out[j].k = "inline" THEN "verb" ELSE "begin")
   /\ modes[c[1].id - 1] = "text"
   /\ LET e == doc[c[Len(c)].id + 1] IN
        IF out[j].k = "inline" THEN e.k = "verbend"
        ELSE e.k = "end" /\ e.v = doc[c[1].id - 1].v
\* an environment's code ends at the first matching \end, \verb on its line
First == \A j \in 1..Len(out) : LET c == out[j].v IN
   /\ (out[j].k = "block" => \A x \in 1..Len(c) : ~(c[x].k = "end" /\ c[x].v = doc[c[1].id - 1].v))
   /\ (out[j].k = "inline" => \A x \in 1..Len(c) : c[x].k # "nl")
=============================================================================
