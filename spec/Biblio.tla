-------------------------------- MODULE Biblio --------------------------------
(* BibTeX databases, atom by atom. The same atom (a comma, a brace, a quote, a    *)
(* number) ends something, begins something or is part of a value depending on    *)
(* the mode alone. `st` is the reader, `ents` what the writer meant: at the end   *)
(* the reader has to have read what was meant.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Targets, Keys, Names, Macs, Features, FocusSize, Sample, Emit

VARIABLES doc, st, ents, focus, target, phase
vars == <<doc, st, ents, focus, target, phase>>

A(k, n) == [k |-> k, n |-> n]
Types == <<"entry", "string", "comment", "preamble">>

----------------------------------------------------------------------------
\* the reader
Start == [mode |-> "out", close |-> "}", depth |-> 0, type |-> "entry", key |-> 0, name |-> 0, val |-> <<>>,
          fields |-> <<>>, strs |-> [m \in Macs |-> <<A("ref", m)>>], file |-> 1, nth |-> 0, out |-> <<>>]
Known(fs, n) == \E i \in 1..Len(fs) : fs[i].n = n
\* the value read is the field's, unless the entry has that field already
Store(s) == IF Known(s.fields, s.name) THEN s ELSE [s EXCEPT !.fields = Append(@, [n |-> s.name, v |-> s.val])]
Value(s) == IF s.type = "string" THEN [s EXCEPT !.strs[s.name] = s.val] ELSE Store(s)
Close(s) == LET o == [s EXCEPT !.mode = "out", !.fields = <<>>, !.key = 0, !.val = <<>>] IN
            IF s.type = "entry" /\ s.key # 0 THEN [o EXCEPT !.out = Append(@, [key |-> s.key, fields |-> s.fields, file |-> s.file, nth |-> s.nth])] ELSE o
Add(s, a) == [s EXCEPT !.val = Append(@, a)]

Step(s, a) ==
  CASE a.k = "cut" -> Close(IF s.mode = "after" THEN Value(s) ELSE IF s.mode = "named" THEN [s EXCEPT !.key = 0] ELSE s)     \* the entry breaks off
    [] s.mode = "out" -> IF a.k \in {"@{", "@("}
                         THEN [s EXCEPT !.type = Types[a.n], !.nth = @ + 1, !.close = IF a.k = "@{" THEN "}" ELSE ")", !.depth = 0,
                                        !.mode = CASE Types[a.n] = "entry" -> "key" [] Types[a.n] = "string" -> "name" [] OTHER -> "skip"]
                         ELSE IF a.k = "file" THEN [s EXCEPT !.file = @ + 1] ELSE s
    [] s.mode = "skip" -> IF a.k = s.close /\ s.depth = 0 THEN Close(s)
                          ELSE [s EXCEPT !.depth = IF a.k = "{" THEN @ + 1 ELSE IF a.k = "}" THEN @ - 1 ELSE @]
    [] s.mode = "key" -> IF a.k = "key" THEN [s EXCEPT !.key = a.n, !.mode = "named"] ELSE s
    [] s.mode = "named" -> IF a.k = s.close THEN Close(s) ELSE [s EXCEPT !.mode = "name"]
    [] s.mode = "name" -> IF a.k = "name" THEN [s EXCEPT !.name = a.n, !.mode = "eq", !.val = <<>>]
                          ELSE IF a.k = s.close THEN Close(s) ELSE s
    [] s.mode = "eq" -> [s EXCEPT !.mode = "value"]
    [] s.mode = "value" -> CASE a.k = "{" -> [s EXCEPT !.mode = "brace", !.depth = 0]
                             [] a.k = "\"" -> [s EXCEPT !.mode = "quote", !.depth = 0]
                             [] a.k = "ref" -> [s EXCEPT !.val = @ \o s.strs[a.n], !.mode = "after"]
                             [] OTHER -> [Add(s, a) EXCEPT !.mode = "after"]
    [] s.mode \in {"brace", "quote"} ->
         IF s.depth = 0 /\ a.k = (IF s.mode = "brace" THEN "}" ELSE "\"") THEN [s EXCEPT !.mode = "after"]
         ELSE [Add(s, a) EXCEPT !.depth = IF a.k = "{" THEN @ + 1 ELSE IF a.k = "}" THEN @ - 1 ELSE @]
    [] s.mode = "after" -> CASE a.k = "#" -> [s EXCEPT !.mode = "value"]
                             [] a.k = s.close -> Close(Value(s))
                             [] OTHER -> [Value(s) EXCEPT !.mode = "name"]
RECURSIVE Run(_, _)
Run(s, as) == IF as = <<>> THEN s ELSE Run(Step(s, as[1]), Tail(as))

----------------------------------------------------------------------------
\* the writer: entries with fields, fields with parts, parts with pieces
\* (phase keeps TLC from drawing once and for all)
Some(S) == IF Sample /\ S # {} /\ phase # "" THEN {RandomElement(S)} ELSE S
Init == /\ doc = <<>> /\ st = Start /\ ents = <<>>
        /\ focus = (IF Sample THEN {} ELSE Features) /\ target \in Targets /\ phase = (IF Sample THEN "pick" ELSE "go")
\* a few features at a time
Pick == phase = "pick" /\ phase' = "go" /\ focus' = RandomSubset(FocusSize, Features) /\ UNCHANGED <<doc, st, ents, target>>
Has(f) == f \in focus
Going == phase = "go" /\ Len(doc) < target
Last == Len(ents)
Put(a) == doc' = Append(doc, a) /\ st' = Step(st, a) /\ UNCHANGED <<focus, target, phase>>
Quiet(a) == Put(a) /\ UNCHANGED ents
LF == Len(ents[Last].fields)
LP == Len(ents[Last].fields[LF].parts)
InText == st.mode \in {"brace", "quote"}
Piece(a) == ents' = IF InText THEN [ents EXCEPT ![Last].fields[LF].parts[LP] = Append(@, a)] ELSE ents

Prev == IF doc = <<>> THEN "" ELSE doc[Len(doc)].k
Count(k) == Cardinality({i \in 1..Len(doc) : doc[i].k = k})
FreeKeys == {n \in Keys : Has("dupkey") \/ \A i \in 1..Last : ents[i].key # n}
\* open an entry, a string definition, a comment or a preamble
Begin(i, d) == /\ Going /\ st.mode = "out" /\ (i = 1 \/ Has(Types[i])) /\ (i = 1 => FreeKeys # {}) /\ (d = "@{" \/ Has("paren"))
               /\ Put(A(d, i)) /\ ents' = Append(ents, [type |-> Types[i], key |-> 0, fields |-> <<>>, file |-> Count("file") + 1])
Junk == Going /\ Has("junk") /\ Prev # "junk" /\ st.mode = "out" /\ Quiet(A("junk", Len(doc) + 1))
NewFile == Going /\ Has("files") /\ st.mode = "out" /\ Prev \notin {"", "file", "junk"} /\ Count("file") < 2 /\ Quiet(A("file", 0))
Key(n) == /\ phase = "go" /\ st.mode = "key"
          /\ Put(A("key", n)) /\ ents' = [ents EXCEPT ![Last].key = n]
FreeNames == IF st.type = "string" THEN (IF st.mode = "name" /\ LF = 0 THEN Macs ELSE {})
             ELSE {n \in Names : Has("dupname") \/ (st.mode = "name" /\ \A i \in 1..LF : ents[Last].fields[i].n # n)}
Name(n) == /\ st.mode = "name" /\ (Going \/ (phase = "go" /\ LF = 0))
           /\ Put(A("name", n)) /\ ents' = [ents EXCEPT ![Last].fields = Append(@, [n |-> n, parts |-> <<>>, done |-> FALSE])]
Equals == phase = "go" /\ st.mode = "eq" /\ Quiet(A("=", 0))
NewPart(p) == ents' = [ents EXCEPT ![Last].fields[LF].parts = Append(@, p)]
OpenValue(q) == /\ phase = "go" /\ st.mode = "value" /\ (q = "{" \/ Has("quote")) /\ Put(A(q, 0)) /\ NewPart(<<>>)
Bare == /\ phase = "go" /\ Has("bare") /\ st.mode = "value" /\ Put(A("num", Len(doc) + 1)) /\ NewPart(<<A("num", Len(doc) + 1)>>)
Ref(m) == /\ phase = "go" /\ Has("string") /\ st.mode = "value" /\ Put(A("ref", m)) /\ NewPart(<<A("ref", m)>>)
Hash == Going /\ Has("hash") /\ st.mode = "after" /\ Quiet(A("#", 0))
\* text in a value or in a skipped group
Word == LET a == A("w", Len(doc) + 1) IN
        /\ (Going \/ (phase = "go" /\ InText /\ ents[Last].fields[LF].parts[LP] = <<>>)) /\ (InText \/ st.mode = "skip") /\ Put(a) /\ Piece(a)
Special(k) == LET a == A(k, 0) IN
              /\ Going /\ Has("special") /\ (InText \/ st.mode = "skip")
              /\ (k = "\"" => Has("quote") /\ (st.mode = "quote" => st.depth > 0))
              /\ (k = ")" => st.mode # "skip")
              /\ Put(a) /\ Piece(a)
Nest == /\ Going /\ Has("nest") /\ (InText \/ st.mode = "skip") /\ st.depth < 2 /\ Put(A("{", 0)) /\ Piece(A("{", 0))
Unnest == /\ phase = "go" /\ (InText \/ st.mode = "skip") /\ st.depth > 0 /\ Put(A("}", 0)) /\ Piece(A("}", 0))
CloseValue == /\ phase = "go" /\ InText /\ st.depth = 0 /\ (Has("empty") \/ ents[Last].fields[LF].parts[LP] # <<>>) /\ Quiet(A(IF st.mode = "brace" THEN "}" ELSE "\"", 0))
Comma == /\ phase = "go" /\ st.mode \in {"named", "after"} /\ Put(A(",", 0))
         /\ ents' = IF st.mode = "after" THEN [ents EXCEPT ![Last].fields[LF].done = TRUE] ELSE ents
CloseEntry == /\ phase = "go" /\ (st.mode \in {"named", "name", "after"} \/ (st.mode = "skip" /\ st.depth = 0))
              /\ (st.type = "string" => LF = 1)
              /\ Put(A(st.close, 0))
              /\ ents' = IF st.mode = "after" THEN [ents EXCEPT ![Last].fields[LF].done = TRUE] ELSE ents
\* the entry is never finished: what it has so far is kept, what follows is not lost.
\* (but a value left open by a quote would end at the next quote)
Cut == /\ Going /\ Has("cut") /\ Count("cut") < 2 /\ st.mode \notin {"out", "eq", "value", "quote"} /\ (st.mode = "skip" => st.close = "}") /\ (st.mode = "key" => ~Has("junk"))
       /\ (st.type = "string" => st.mode = "after")
       /\ Put(A("cut", 0))
       /\ ents' = CASE st.mode = "after" -> [ents EXCEPT ![Last].fields[LF].done = TRUE]
                    [] st.mode = "named" -> [ents EXCEPT ![Last].key = 0]
                    [] OTHER -> ents

\* of entries with the same key the first one is listed
RECURSIVE Listed(_, _)
Listed(o, i) == IF i = 0 THEN <<>>
                ELSE Listed(o, i - 1) \o (IF \E j \in 1..(i - 1) : o[j].key = o[i].key THEN <<>> ELSE <<o[i]>>)
Finish == /\ phase = "go" /\ (~Going \/ FreeKeys = {}) /\ st.mode = "out" /\ phase' = "out"
          /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> st.out, listed |-> Listed(st.out, Len(st.out))])))
          /\ UNCHANGED <<doc, st, ents, focus, target>>
Specials == {",", "=", "#", "@", "%", "(", ")", "\"", "esc", "acc", "math", "dollar"}
Next == \/ Pick \/ Junk \/ NewFile \/ Equals \/ Bare \/ Hash \/ Word \/ Nest \/ Unnest \/ CloseValue \/ Comma \/ CloseEntry \/ Cut \/ Finish
        \/ \E i \in {1} \cup Some(2..4), d \in Some({"@{"} \cup IF Has("paren") THEN {"@("} ELSE {}) : Begin(i, d)
        \/ \E n \in Some(FreeKeys) : Key(n)
        \/ \E n \in Some(FreeNames) : Name(n)
        \/ OpenValue("{") \/ OpenValue("\"")
        \/ \E m \in Some(Macs) : Ref(m)
        \/ \E i \in 1..2, k \in Some(Specials) : Special(k)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* what the writer meant, without reading anything
RECURSIVE Flat(_, _)
Flat(parts, strs) == IF parts = <<>> THEN <<>>
                     ELSE (IF Len(parts[1]) = 1 /\ parts[1][1].k = "ref" THEN strs[parts[1][1].n] ELSE parts[1]) \o Flat(Tail(parts), strs)
\* the strings defined by the entries before the i-th
RECURSIVE Strs(_)
Strs(i) == IF i = 0 THEN Start.strs
           ELSE LET s == Strs(i - 1) e == ents[i] IN
                IF e.type = "string" /\ e.fields # <<>> /\ e.fields[1].done
                THEN [s EXCEPT ![e.fields[1].n] = Flat(e.fields[1].parts, s)] ELSE s
FirstOfName(fs, i) == \A j \in 1..(i - 1) : ~fs[j].done \/ fs[j].n # fs[i].n
RECURSIVE Fields(_, _, _)
Fields(fs, i, strs) == IF i > Len(fs) THEN <<>>
                       ELSE (IF fs[i].done /\ FirstOfName(fs, i) THEN <<[n |-> fs[i].n, v |-> Flat(fs[i].parts, strs)]>> ELSE <<>>) \o Fields(fs, i + 1, strs)
RECURSIVE Meant(_)
Meant(i) == IF i > Last THEN <<>>
            ELSE (IF ents[i].type = "entry" /\ ents[i].key # 0 THEN <<[key |-> ents[i].key, fields |-> Fields(ents[i].fields, 1, Strs(i - 1)), file |-> ents[i].file, nth |-> i]>> ELSE <<>>)
                  \o Meant(i + 1)
Done == phase = "out"
ReadsWhatWasMeant == (phase = "go" /\ st.mode = "out") \/ Done => st.out = Meant(1)
ReadsAgain == Done => Run(Start, doc) = st
Balanced == st.mode = "out" => st.fields = <<>> /\ st.key = 0
=============================================================================
