------------------------------- MODULE Tables -------------------------------
(* Tables: which table, row, cell and span every piece of content belongs to.     *)
(* A separator acts on the innermost thing that is open: & and \\ end a cell or a *)
(* row of a table, \\ inside braces only breaks a line, and both are ordinary in  *)
(* what sits in a cell (math, code, addresses).                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, MaxTables, MaxCols, MaxSpan, MaxDepth,
          Envs, Groups, Styles, Leaves, Seps, Emit

VARIABLES doc, stack, target, phase
vars == <<doc, stack, target, phase>>

Init == /\ doc = <<>> /\ target \in Targets /\ phase = "go"
        /\ stack = <<[k |-> "root", v |-> "", out |-> <<>>]>>

Going == phase = "go" /\ Len(doc) < target
Here == Len(doc) + 1
Top == stack[Len(stack)]
Below == stack[Len(stack) - 1]
InTable == Top.k = "table"
Free == ~(InTable /\ Top.sealed)      \* nothing but a separator may follow a \multicolumn
NoSpan == [c |-> 1, r |-> 1]
Ev(k, v, n) == doc' = Append(doc, [k |-> k, v |-> v, n |-> n])
Push(f) == stack' = Append(stack, f)
WithTop(f) == stack' = [stack EXCEPT ![Len(stack)] = f]
Put(x) == WithTop(IF InTable THEN [Top EXCEPT !.cur = Append(@, x)] ELSE [Top EXCEPT !.out = Append(@, x)])

\* styles of the groups open inside the current cell
RECURSIVE StylesAt(_)
StylesAt(d) == IF stack[d].k \in {"root", "table"} THEN {}
               ELSE StylesAt(d - 1) \cup (IF stack[d].k = "grp" /\ stack[d].v \in Styles THEN {stack[d].v} ELSE {})
Here0(k, v) == [k |-> k, v |-> v, id |-> Here, st |-> StylesAt(Len(stack)), rows |-> <<>>]

\* what is open still has to be given some content
Hollow == \/ Top.k \in {"grp", "mc", "mr"} /\ Top.out = <<>>
          \/ InTable /\ Top.cur = <<>> /\ \A r \in 1..Len(Top.rows) : \A c \in 1..Len(Top.rows[r]) : Top.rows[r][c].cont = <<>>
Word == /\ phase = "go" /\ (Going \/ Hollow) /\ Free /\ Ev("w", "", 0) /\ Put(Here0("w", ""))
Amp0 == /\ Going /\ Free /\ Ev("amp", "", 0) /\ Put(Here0("amp", ""))       \* \&
Leaf(v) == /\ Going /\ Free /\ Top.k # "root" /\ Ev("leaf", v, 0) /\ Put(Here0("leaf", v))
Break == /\ Going /\ Top.k \in {"grp", "mr"} /\ Top.out # <<>> /\ Ev("break", "", 0) /\ UNCHANGED stack

Cell(t) == [cont |-> t.cur, sp |-> t.sp]
NewCell(t, row) == [t EXCEPT !.row = row, !.cur = <<>>, !.sp = NoSpan, !.sealed = FALSE]
EmptyCell(c) == c.cont = <<>> /\ c.sp = NoSpan
\* a row without any separator and content is no row
FullRow(t) == LET r == Append(t.row, Cell(t)) IN IF Len(r) = 1 /\ EmptyCell(r[1]) THEN <<>> ELSE <<r>>

Sep == /\ Going /\ InTable /\ Len(Top.row) + 1 < MaxCols
       /\ Ev("sep", "", 0) /\ WithTop(NewCell(Top, Append(Top.row, Cell(Top))))
RowEnd(v) == /\ Going /\ InTable /\ Ev("row", v, 0)
             /\ WithTop([NewCell(Top, <<>>) EXCEPT !.rows = @ \o FullRow(Top)])
Rule == /\ Going /\ InTable /\ Top.row = <<>> /\ Top.cur = <<>> /\ Top.sp = NoSpan
        /\ Ev("rule", "", 0) /\ UNCHANGED stack

OpenGroup(v) == /\ Going /\ Free /\ Top.k # "root" /\ Len(stack) < MaxDepth
                /\ v \notin StylesAt(Len(stack))
                /\ Ev("open", v, 0) /\ Push([k |-> "grp", v |-> v, out |-> <<>>])
\* the cell a \multirow stands in
CellDepth == CHOOSE d \in 1..Len(stack) : /\ stack[d].k = "table"
                                          /\ \A e \in (d + 1)..Len(stack) : stack[e].k # "table"
InCell == \E d \in 1..Len(stack) : stack[d].k = "table"
OpenCols(n) == /\ Going /\ InTable /\ Free /\ Top.cur = <<>> /\ Top.sp = NoSpan /\ Len(stack) < MaxDepth
               /\ Ev("cols", "", n)
               /\ stack' = Append([stack EXCEPT ![Len(stack)].sp.c = n, ![Len(stack)].sealed = TRUE],
                                  [k |-> "mc", v |-> "", out |-> <<>>])
OpenRows(n) == /\ Going /\ InCell /\ Top.k \in {"table", "mc", "grp"} /\ Free /\ Len(stack) < MaxDepth
               /\ stack[CellDepth].sp.r = 1
               /\ (Top.k = "grp" => Top.v \in Styles)
               /\ Ev("rows", "", n)
               /\ stack' = Append([stack EXCEPT ![CellDepth].sp.r = n], [k |-> "mr", v |-> "", out |-> <<>>])
Close == /\ phase = "go" /\ Top.k \in {"grp", "mc", "mr"} /\ (Top.out # <<>> \/ (Top.k = "mc" /\ Going))
         /\ Ev("close", Top.v, 0)
         /\ stack' = LET s == SubSeq(stack, 1, Len(stack) - 1) d == Len(s) IN
              IF s[d].k = "table" THEN [s EXCEPT ![d].cur = @ \o Top.out] ELSE [s EXCEPT ![d].out = @ \o Top.out]

NTables == Cardinality({i \in 1..Len(doc) : doc[i].k = "table"})
OpenTable(e) == /\ (Going \/ (phase = "go" /\ NTables = 0)) /\ Free /\ (InTable \/ Top.k = "root") /\ NTables < MaxTables
                /\ Len(stack) < MaxDepth
                /\ Ev("table", e, 0)
                /\ Push([k |-> "table", v |-> e, id |-> Here, rows |-> <<>>, row |-> <<>>, cur |-> <<>>,
                         sp |-> NoSpan, sealed |-> FALSE])
CloseTable ==
  /\ phase = "go" /\ InTable
  /\ LET rows == Top.rows \o FullRow(Top) IN
     /\ \E r \in 1..Len(rows) : \E c \in 1..Len(rows[r]) : rows[r][c].cont # <<>>
     /\ Ev("endtable", Top.v, 0)
     /\ stack' = LET s == SubSeq(stack, 1, Len(stack) - 1) d == Len(s)
                     x == [k |-> "tab", v |-> Top.v, id |-> Top.id, st |-> {}, rows |-> rows] IN
          IF s[d].k = "table" THEN [s EXCEPT ![d].cur = Append(@, x)] ELSE [s EXCEPT ![d].out = Append(@, x)]

Done == /\ phase = "go" /\ Len(doc) >= target /\ Len(stack) = 1 /\ NTables > 0
        /\ phase' = "done"
        /\ (Emit => PrintT("@@" \o ToJson([doc |-> doc, out |-> Top.out])))
        /\ UNCHANGED <<doc, stack, target>>

Next == \/ Done
        \/ UNCHANGED <<target, phase>> /\
           ( \/ Word \/ Amp0 \/ Sep \/ Break \/ Rule \/ Close \/ CloseTable
             \/ \E v \in Leaves : Leaf(v)
             \/ \E v \in Seps : RowEnd(v)
             \/ \E v \in Groups \cup Styles : OpenGroup(v)
             \/ \E n \in 2..MaxSpan : OpenCols(n) \/ OpenRows(n)
             \/ \E e \in Envs : OpenTable(e) )
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
D == 1..Len(doc)
Check == phase = "done" \/ Len(doc) < 9      \* the expensive ones
Open == {"table", "open", "cols", "rows"}
Shut == {"endtable", "close"}
\* number of things open after each event, and the table each event stands in (0: none)
Deps == TLCEval([i \in 0..Len(doc) |-> Cardinality({j \in 1..i : doc[j].k \in Open}) - Cardinality({j \in 1..i : doc[j].k \in Shut})])
TabOf == LET dep == Deps IN
  TLCEval([i \in D |->
    LET c == {p \in 1..(i - 1) : doc[p].k = "table" /\ \A q \in p..(i - 1) : dep[q] >= dep[p]} IN
    IF c = {} THEN 0 ELSE CHOOSE p \in c : \A q \in c : q <= p])
\* what a piece of finished content holds, in order
RECURSIVE IdsOf(_), IdsRows(_), IdsRow(_)
IdsOf(s) == IF s = <<>> THEN <<>>
            ELSE (IF s[1].k = "tab" THEN IdsRows(s[1].rows) ELSE <<s[1].id>>) \o IdsOf(Tail(s))
IdsRow(r) == IF r = <<>> THEN <<>> ELSE IdsOf(r[1].cont) \o IdsRow(Tail(r))
IdsRows(rs) == IF rs = <<>> THEN <<>> ELSE IdsRow(rs[1]) \o IdsRows(Tail(rs))
RECURSIVE IdsStack(_)
IdsStack(d) == IF d > Len(stack) THEN <<>>
               ELSE (IF stack[d].k = "table"
                     THEN IdsRows(stack[d].rows) \o IdsRow(stack[d].row) \o IdsOf(stack[d].cur)
                     ELSE IdsOf(stack[d].out)) \o IdsStack(d + 1)
Conserved == Check => IdsStack(1) = SelectSeq([i \in D |-> i], LAMBDA i : doc[i].k \in {"w", "amp", "leaf"})

\* where each event stands: its table, that table's row ends before it, and its column
Places == LET tab == TabOf IN
  TLCEval([i \in D |->
    LET ends == {j \in 1..(i - 1) : doc[j].k = "row" /\ tab[j] = tab[i]} IN
    [tab |-> tab[i], ends |-> ends,
     col |-> 1 + Cardinality({j \in 1..(i - 1) : doc[j].k = "sep" /\ tab[j] = tab[i] /\ \A e \in ends : e < j})]])
SameRow(p, q) == p.tab = q.tab /\ p.ends = q.ends

\* all finished tables: <<id, rows>>
RECURSIVE TabsOf(_), TabsRow(_), TabsRows(_)
TabsOf(s) == IF s = <<>> THEN {}
             ELSE (IF s[1].k = "tab" THEN {<<s[1].id, s[1].rows>>} \cup TabsRows(s[1].rows) ELSE {}) \cup TabsOf(Tail(s))
TabsRow(r) == IF r = <<>> THEN {} ELSE TabsOf(r[1].cont) \cup TabsRow(Tail(r))
TabsRows(rs) == IF rs = <<>> THEN {} ELSE TabsRow(rs[1]) \cup TabsRows(Tail(rs))
Finished == TabsOf(stack[1].out)
Has(c, i) == \E x \in 1..Len(c.cont) : c.cont[x].id = i
CellsRight == Check => LET at == Places IN \A t \in Finished :
  LET rows == t[2] IN
  \A r \in 1..Len(rows) : \A c \in 1..Len(rows[r]) : \A x \in 1..Len(rows[r][c].cont) :
     LET p == at[rows[r][c].cont[x].id] IN
     /\ p.tab = t[1] /\ p.col = c
     /\ \A r2 \in 1..Len(rows) : \A c2 \in 1..Len(rows[r2]) : \A y \in 1..Len(rows[r2][c2].cont) :
           (r = r2) <=> SameRow(p, at[rows[r2][c2].cont[y].id])
\* a row has a cell more than separators
Widths == Check => LET at == Places IN \A t \in Finished : \A r \in 1..Len(t[2]) :
  LET cells == t[2][r] cs == {c \in 1..Len(cells) : cells[c].cont # <<>>} IN
  cs # {} => LET p == at[cells[CHOOSE c \in cs : TRUE].cont[1].id] IN
    Len(cells) = 1 + Cardinality({j \in D : doc[j].k = "sep" /\ SameRow(p, at[j])})
\* a cell spans what the \multicolumn and \multirow standing in it say
SpansRight == Check => LET at == Places IN \A t \in Finished : \A r \in 1..Len(t[2]) : \A c \in 1..Len(t[2][r]) :
  LET cell == t[2][r][c] IN cell.cont # <<>> =>
  LET p == at[cell.cont[1].id]
      here(k) == {j \in D : doc[j].k = k /\ SameRow(p, at[j]) /\ at[j].col = c}
      n(k) == IF here(k) = {} THEN 1 ELSE doc[CHOOSE j \in here(k) : TRUE].n IN
  /\ Cardinality(here("cols")) <= 1 /\ Cardinality(here("rows")) <= 1
  /\ cell.sp = [c |-> n("cols"), r |-> n("rows")]
=============================================================================
