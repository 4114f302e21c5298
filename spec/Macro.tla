-------------------------------- MODULE Macro --------------------------------
(* User macros.  A document is a stream of definitions (\newcommand,           *)
(* \renewcommand, \providecommand, \def, \edef, \let), uses and plain words.   *)
(* A use yields the words its definition *in force at that point* stands for,  *)
(* bodies being read again at every use (except \edef), \let copying a meaning. *)
(* A definition by which a name would lead back to itself is refused.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets,   \* lengths of documents
          Names,     \* user control sequences
          Prims,     \* control sequences that mean themselves (math symbols)
          MaxArgs, MaxBody,
          MaxWords,  \* longest expansion a document may ask for
          Loops,     \* may a document close a definition cycle?
          Emit

VARIABLES doc, defs, cur, w, tainted, target, phase
vars == <<doc, defs, cur, w, tainted, target, phase>>

All == Names \cup Prims
Word(i) == "w" \o ToString(i)
NoDef == [st |-> "none", fm |-> "", n |-> 0, o |-> FALSE, d |-> "", b |-> <<>>]
Prim(p) == [st |-> "prim", fm |-> "", n |-> 0, o |-> FALSE, d |-> "",
            b |-> <<[t |-> "p", v |-> p, i |-> 0, a |-> <<>>, op |-> <<>>, fm |-> ""]>>]
AWord(v) == [t |-> "w", v |-> v, i |-> 0, a |-> <<>>, op |-> <<>>, fm |-> ""]
AArg(i)  == [t |-> "arg", v |-> "", i |-> i, a |-> <<>>, op |-> <<>>, fm |-> ""]
ACall(nm, args, opt, form) == [t |-> "call", v |-> nm, i |-> 0, a |-> args, op |-> opt, fm |-> form]
NoCur == [kind |-> "", name |-> "", n |-> 0, o |-> FALSE, d |-> "", b |-> <<>>]

RECURSIVE Expand(_, _, _), Valid(_, _), Reach(_, _, _)
Flat(ss) == LET F[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE F[i-1] \o ss[i] IN F[Len(ss)]
One(d, x, args) ==
  CASE x.t = "w" -> <<x.v>>
    [] x.t = "p" -> <<"\\" \o x.v>>
    [] x.t = "arg" -> args[x.i]
    [] x.t = "call" ->
         LET m  == d[x.v]
             mand == [i \in 1..Len(x.a) |-> Expand(d, <<x.a[i]>>, args)]
             opt == IF ~m.o THEN <<>>
                    ELSE IF x.op = <<>> THEN << <<m.d>> >>
                    ELSE << Expand(d, x.op, args) >>
         IN Expand(d, m.b, opt \o mand)
Expand(d, atoms, args) == Flat([i \in 1..Len(atoms) |-> One(d, atoms[i], args)])

\* the arguments supplied fit the definitions in force, all the way down
Valid(d, atoms) ==
  \A i \in 1..Len(atoms) : LET x == atoms[i] IN
    x.t = "call" =>
      /\ d[x.v].st # "none"
      /\ Len(x.a) + (IF d[x.v].o THEN 1 ELSE 0) = d[x.v].n
      /\ (x.op # <<>> => d[x.v].o)
      /\ (x.a # <<>> => d[x.v].fm = x.fm)      \* braced or (delimited)
      /\ Valid(d, x.a) /\ Valid(d, x.op) /\ Valid(d, d[x.v].b)

\* does expanding `atoms` lead to `nm`?  (d must be acyclic)
Reach(d, atoms, nm) ==
  \E i \in 1..Len(atoms) : LET x == atoms[i] IN
    /\ x.t = "call"
    /\ \/ x.v = nm
       \/ d[x.v].st = "macro" /\ Reach(d, d[x.v].b, nm)
       \/ Reach(d, x.a, nm) \/ Reach(d, x.op, nm)

\* does expanding `atoms` involve a call written with delimited arguments?
RECURSIVE Delim(_, _)
Delim(d, atoms) ==
  \E i \in 1..Len(atoms) : LET x == atoms[i] IN
    /\ x.t = "call"
    /\ \/ x.fm = "(" /\ x.a # <<>>
       \/ d[x.v].st = "macro" /\ Delim(d, d[x.v].b)

\* length of an expansion, computed without building it
RECURSIVE Size(_, _, _)
Size(d, atoms, args) ==
  LET S[i \in 0..Len(atoms)] ==
        IF i = 0 THEN 0
        ELSE S[i-1] + (LET x == atoms[i] IN
          CASE x.t \in {"w", "p"} -> 1
            [] x.t = "arg" -> args[x.i]
            [] x.t = "call" ->
                 LET m == d[x.v]
                     mand == [j \in 1..Len(x.a) |-> Size(d, <<x.a[j]>>, args)]
                     opt == IF ~m.o THEN <<>> ELSE IF x.op = <<>> THEN <<1>>
                            ELSE <<Size(d, x.op, args)>>
                 IN Size(d, m.b, opt \o mand))
  IN S[Len(atoms)]

Init == /\ doc = <<>> /\ cur = NoCur /\ w = 0 /\ tainted = {}
        /\ defs = [x \in All |-> IF x \in Prims THEN Prim(x) ELSE NoDef]
        /\ target \in Targets /\ phase = "go"

Going == phase = "go" /\ Len(doc) < target /\ cur = NoCur
Ev(k, kind, name, rec, id, atom, math, exp, free) ==
  [k |-> k, kind |-> kind, name |-> name, n |-> rec.n, o |-> rec.o, d |-> rec.d, b |-> rec.b,
   id |-> id, atom |-> atom, math |-> math, exp |-> exp, free |-> free]

Start(kind, name, n, o) ==
  /\ Going /\ n <= MaxArgs
  /\ (o => kind \in {"cmd", "provide"} /\ n > 0)
  /\ (kind = "edef" => n = 0)
  /\ (kind = "ddef" => n > 0)
  /\ (name \in Prims => kind \in {"cmd", "def"})
  /\ w' = w + 1
  /\ cur' = [kind |-> kind, name |-> name, n |-> n, o |-> o, d |-> IF o THEN Word(w') ELSE "", b |-> <<>>]
  /\ UNCHANGED <<doc, defs, tainted, target, phase>>

InDef == phase = "go" /\ cur # NoCur /\ Len(cur.b) < MaxBody
AddWord == /\ InDef /\ w' = w + 1
           /\ cur' = [cur EXCEPT !.b = Append(@, AWord(Word(w')))]
           /\ UNCHANGED <<doc, defs, tainted, target, phase>>
AddArg(i) == /\ InDef /\ i <= cur.n
             /\ cur' = [cur EXCEPT !.b = Append(@, AArg(i))]
             /\ UNCHANGED <<doc, defs, w, tainted, target, phase>>
\* call another macro (defined by now or not), passing own arguments on or words
AddCall(nm, pass) ==
  /\ InDef
  /\ LET m == defs[nm]
         k == m.n - (IF m.o THEN 1 ELSE 0)
         args == [i \in 1..k |-> IF pass /\ cur.n > 0 THEN AArg(((i-1) % cur.n) + 1)
                                 ELSE AWord(Word(w + i))]
     IN /\ w' = w + k
        /\ cur' = [cur EXCEPT !.b = Append(@, ACall(nm, args, <<>>, m.fm))]
  /\ UNCHANGED <<doc, defs, tainted, target, phase>>

HasPrim(ws) == \E i \in 1..Len(ws) : \E p \in Prims : ws[i] = "\\" \o p
Taint(d, nm) == tainted \cup {nm} \cup {x \in All : d[x].st = "macro" /\ Reach(d, d[x].b, nm)}
Finish ==
  /\ phase = "go" /\ cur # NoCur /\ Len(cur.b) > 0
  /\ LET c == cur
         loop == c.kind # "edef" /\ Reach(defs, c.b, c.name)
         body == IF c.kind = "edef" THEN
                    LET ws == Expand(defs, c.b, <<>>)
                    IN [i \in 1..Len(ws) |-> AWord(ws[i])]
                 ELSE c.b
         rec == [st |-> "macro", fm |-> IF c.kind = "ddef" THEN "(" ELSE "", n |-> c.n, o |-> c.o, d |-> c.d, b |-> body]
         keep == c.kind = "provide" /\ defs[c.name].st # "none"
         dirty == c.name \in tainted \/ \E t \in tainted : Reach(defs, c.b, t)
     IN
     /\ (c.kind = "edef" => /\ Valid(defs, c.b) /\ ~dirty
                            /\ Size(defs, c.b, <<>>) <= MaxWords
                            /\ ~HasPrim(Expand(defs, c.b, <<>>)))
     /\ (loop => Loops /\ c.kind # "provide")
     /\ ~dirty
     /\ doc' = Append(doc, Ev("def", c.kind, c.name, c, 0, AWord(""), FALSE, <<>>, defs[c.name].st = "none"))
     /\ defs' = IF keep \/ loop THEN defs ELSE [defs EXCEPT ![c.name] = rec]
     /\ tainted' = IF loop THEN Taint(defs, c.name) ELSE tainted
  /\ cur' = NoCur
  /\ UNCHANGED <<w, target, phase>>

\* a definition that would not fit is not written at all
Drop == /\ phase = "go" /\ cur # NoCur /\ Len(cur.b) = MaxBody
        /\ cur' = NoCur
        /\ doc' = Append(doc, Ev("nop", "", "", NoCur, 0, AWord(""), FALSE, <<>>, FALSE))
        /\ UNCHANGED <<defs, w, tainted, target, phase>>

\* \let\new\old: the meaning old has now, whatever becomes of old later
Let(new, old) ==
  /\ Going /\ new # old
  /\ defs[old].st # "none" /\ old \notin tainted /\ new \notin tainted
  /\ ~(defs[old].st = "macro" /\ Reach(defs, defs[old].b, new))
  /\ doc' = Append(doc, Ev("let", "let", new, NoCur, 0, ACall(old, <<>>, <<>>, ""), FALSE, <<>>, FALSE))
  /\ defs' = [defs EXCEPT ![new] = defs[old]]
  /\ UNCHANGED <<cur, w, tainted, target, phase>>

Use(nm, nest, opt, math, emp) ==
  /\ Going
  /\ defs[nm].st # "none"
  /\ LET m == defs[nm]
         k == m.n - (IF m.o THEN 1 ELSE 0)
         ok == defs[nest].st # "none" /\ defs[nest].n = 0 /\ ~(\E t \in tainted : t = nest \/ Reach(defs, defs[nest].b, t))
                 /\ ~Delim(defs, defs[nest].b)    \* a delimiter must not hide in an argument
         args == [i \in 1..k |-> IF ok /\ nest # nm THEN ACall(nest, <<>>, <<>>, "")
                                 ELSE AWord(IF emp THEN "" ELSE Word(w + i))]
         op == IF opt /\ m.o THEN <<AWord(IF emp THEN "" ELSE Word(w + k + 1))>> ELSE <<>>
         x == ACall(nm, args, op, m.fm)
         dirty == \E t \in tainted : t = nm \/ Reach(defs, <<x>>, t)
     IN
     /\ Valid(defs, <<x>>)
     /\ (dirty \/ Size(defs, <<x>>, <<>>) <= MaxWords)
     /\ w' = w + k + 1
     /\ LET ws == IF dirty THEN <<>> ELSE Expand(defs, <<x>>, <<>>) IN
        /\ HasPrim(ws) => math
        /\ doc' = Append(doc, Ev("use", "", nm, NoCur, Len(doc) + 1, x, math, ws, dirty))
  /\ UNCHANGED <<defs, cur, tainted, target, phase>>

Text == /\ Going /\ w' = w + 1
        /\ doc' = Append(doc, Ev("txt", "", "", NoCur, Len(doc) + 1, AWord(Word(w')), FALSE, <<Word(w')>>, FALSE))
        /\ UNCHANGED <<defs, cur, tainted, target, phase>>

Done == /\ phase = "go" /\ cur = NoCur /\ Len(doc) >= target
        /\ phase' = "done"
        /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc])))
        /\ UNCHANGED <<doc, defs, cur, w, tainted, target>>

Next == \/ \E kd \in {"cmd", "provide", "def", "edef", "ddef"}, nm \in All, n \in 0..MaxArgs, o \in BOOLEAN :
              Start(kd, nm, n, o)
        \/ AddWord \/ (\E i \in 1..MaxArgs : AddArg(i))
        \/ (\E nm \in All, p \in BOOLEAN : AddCall(nm, p))
        \/ Finish \/ Drop
        \/ (\E a, b \in All : Let(a, b))
        \/ (\E nm \in All, nest \in All, o, m \in BOOLEAN, e \in BOOLEAN : Use(nm, nest, o, m, e))
        \/ Text \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
\* refusing cyclic definitions keeps every macro finitely expandable
Acyclic == \A x \in All : defs[x].st = "macro" => ~Reach(defs, defs[x].b, x)
\* every use that has a definite outcome yields words only, each word or symbol
\* coming from the document (no call left, nothing invented)
RECURSIVE WordsOf(_)
WordsOf(atoms) == UNION {LET x == atoms[i] IN
    CASE x.t = "w" -> {x.v} [] x.t = "p" -> {"\\" \o x.v} [] x.t = "arg" -> {}
      [] x.t = "call" -> WordsOf(x.a) \cup WordsOf(x.op) : i \in 1..Len(atoms)}
Written == UNION {WordsOf(doc[i].b) \cup WordsOf(<<doc[i].atom>>) \cup {doc[i].d} : i \in 1..Len(doc)}
           \cup {"\\" \o p : p \in Prims}
Closed == \A i \in 1..Len(doc) : doc[i].k = "use" =>
            \A j \in 1..Len(doc[i].exp) : doc[i].exp[j] \in Written
\* arguments handed over at a use are not lost by an identity macro
SizeOk == \A i \in 1..Len(doc) : doc[i].k = "use" => Len(doc[i].exp) <= MaxWords
\* \providecommand and refused definitions never change a meaning; nothing but a
\* definition of that very name does
Stable == [][\A x \in All : defs'[x] # defs[x] => Len(doc') = Len(doc) + 1 /\ doc'[Len(doc')].name = x
               /\ doc'[Len(doc')].k \in {"def", "let"}
               /\ (doc'[Len(doc')].kind = "provide" => defs[x].st = "none")]_vars
=============================================================================
