------------------------------- MODULE Archive -------------------------------
(* Archives and folders of sources: what is extracted and where, which file is   *)
(* processed, and how long the extracted files live.                             *)
(* Names are numbers: the driver gives them spellings that sort the same way.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, Ops, Fmts, Dirs, Names, MaxDir, MainKinds, PlainKinds, Evil, Sample, Emit

VARIABLES fmt, bad, mem, fs, links, target, ops, res, phase
vars == <<fmt, bad, mem, fs, links, target, ops, res, phase>>

\* fs: what a correct extraction leaves, path -> content (index of the member it comes from)
Init == /\ fmt \in Fmts /\ bad \in (IF fmt \in {"folder"} THEN {FALSE} ELSE {TRUE, FALSE})
        /\ mem = <<>> /\ fs = <<>> /\ links = {} /\ target \in Targets /\ ops = <<>> /\ res = <<>> /\ phase = "fill"

Paths == UNION {[1..n -> Dirs] : n \in 0..MaxDir}
Filling == phase = "fill" /\ Len(mem) < (IF fmt = "gz" THEN 1 ELSE target)
Here == Len(mem) + 1
M(m) == mem' = Append(mem, m)
Blank == [t |-> "file", dirs |-> <<>>, name |-> 0, ext |-> "tex", c |-> "", esc |-> "in", to |-> ""]
SamePath(a, b) == a.dirs = b.dirs /\ a.name = b.name /\ a.ext = b.ext

File(d, n, e, c) == /\ Filling /\ (fmt = "gz" => e = "tex" /\ d = <<>>)
                    /\ LET m == [Blank EXCEPT !.dirs = d, !.name = n, !.ext = e, !.c = c]
                       IN M(m) /\ fs' = Append(SelectSeq(fs, LAMBDA f : ~SamePath(f, m)), [dirs |-> d, name |-> n, ext |-> e, c |-> c, id |-> Here])
                    /\ UNCHANGED links
Folder(d) == /\ Filling /\ fmt # "gz" /\ d # <<>> /\ M([Blank EXCEPT !.t = "dir", !.dirs = d]) /\ UNCHANGED <<fs, links>>

\* members that must not have any effect outside
Escape(d, n, how, c) == /\ Filling /\ fmt \in {"zip", "tar"} /\ how \in Evil
                        /\ M([Blank EXCEPT !.dirs = d, !.name = n, !.esc = how, !.c = c]) /\ UNCHANGED <<fs, links>>
Tar == fmt = "tar" /\ "link" \in Evil
Link(t, where) == /\ Filling /\ Tar /\ M([Blank EXCEPT !.t = t, !.name = Here, !.to = where])
                  /\ links' = (IF t = "sym" THEN links \cup {[at |-> Here, to |-> where]} ELSE links) /\ UNCHANGED fs
\* a file whose path leads through a link: where the link was not extracted, a folder takes its place
Through(l) == /\ Filling /\ Tar
              /\ M([Blank EXCEPT !.t = "through", !.name = l.at, !.c = "note", !.ext = "txt", !.to = l.to]) /\ UNCHANGED <<fs, links>>
Fifo(d, n) == /\ Filling /\ Tar /\ (\A f \in 1..Len(fs) : ~SamePath(fs[f], [dirs |-> d, name |-> n, ext |-> "tex"]))
              /\ ~\E f \in 1..Len(mem) : mem[f].t = "fifo"
              /\ M([Blank EXCEPT !.t = "fifo", !.dirs = d, !.name = 90]) /\ UNCHANGED <<fs, links>>

----------------------------------------------------------------------------
(* the file that is processed: files of a folder come before its subfolders *)
RECURSIVE DirsBefore(_, _)
DirsBefore(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
                    ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE DirsBefore(Tail(a), Tail(b))
Before(f, g) == IF f.dirs = g.dirs THEN f.name < g.name ELSE DirsBefore(f.dirs, g.dirs)
Cands == {i \in 1..Len(fs) : fs[i].ext = "tex" /\ fs[i].c \in MainKinds}
Main == IF Cands = {} THEN 0 ELSE CHOOSE i \in Cands : \A j \in Cands \ {i} : Before(fs[i], fs[j])
Usable == ~bad /\ Main # 0

(* processing: each call leaves a result or an error; live says whose files are still there *)
Seal == phase = "fill" /\ ~Filling /\ phase' = "run" /\ UNCHANGED <<fmt, bad, mem, fs, links, target, ops, res>>
Running == phase = "run" /\ Len(ops) < Ops
Process(api, cleanup, fault) ==
  /\ Running
  /\ (fmt = "folder" => api = "process")
  /\ ops' = Append(ops, [k |-> "process", api |-> api, cleanup |-> cleanup, fault |-> fault, on |-> 0])
  /\ res' = Append(res, IF ~Usable \/ fault THEN "error" ELSE IF cleanup \/ fmt = "folder" THEN "gone" ELSE "live")
  /\ UNCHANGED <<fmt, bad, mem, fs, links, target, phase>>
Cleanup(i) ==
  /\ Running /\ res[i] # "error"
  /\ ops' = Append(ops, [k |-> "cleanup", api |-> "", cleanup |-> TRUE, fault |-> FALSE, on |-> i])
  /\ res' = [res EXCEPT ![i] = "gone"]
  /\ UNCHANGED <<fmt, bad, mem, fs, links, target, phase>>

Live == {i \in 1..Len(res) : res[i] = "live"}
RECURSIVE Replay(_, _)
\* the number of temporary directories there must be after each operation
Replay(i, r) == IF i > Len(ops) THEN <<>>
                ELSE LET r2 == IF ops[i].k = "process"
                               THEN Append(r, IF ~Usable \/ ops[i].fault THEN "error" ELSE IF ops[i].cleanup \/ fmt = "folder" THEN "gone" ELSE "live")
                               ELSE [r EXCEPT ![ops[i].on] = "gone"]
                     IN <<Cardinality({j \in 1..Len(r2) : r2[j] = "live"})>> \o Replay(i + 1, r2)

Finish == /\ phase = "run" /\ Len(ops) = Ops /\ phase' = "done"
          /\ (Emit => PrintT("@@" \o ToJson([fmt |-> fmt, bad |-> bad, mem |-> mem, fs |-> fs, main |-> Main, usable |-> Usable,
                                             ops |-> ops, res |-> res, live |-> Replay(1, <<>>)])))
          /\ UNCHANGED <<fmt, bad, mem, fs, links, target, ops, res>>

Kinds == MainKinds \cup PlainKinds
\* all values, or one at random (simulation would compute every successor)
\* (phase keeps TLC from drawing once and for all)
Some(S) == IF Sample /\ phase # "" THEN {RandomElement(S)} ELSE S
Add == \/ \E d \in Some(Paths), n \in Some(Names), e \in {"tex", "txt"}, c \in Kinds : File(d, n, e, c)
       \/ \E d \in Some(Paths) : Folder(d)
       \/ \E d \in Some(Paths), n \in Some(Names), how \in Evil \ {"link"}, c \in MainKinds : Escape(d, n, how, c)
       \/ \E t \in {"sym", "hard"}, w \in {"out", "abs", "in"} : Link(t, w)
       \/ \E l \in links : Through(l)
       \/ \E d \in Some(Paths), n \in Some(Names) : Fifo(d, n)
Run == \/ \E api \in {"process", "compressed"}, c, f \in BOOLEAN : Process(api, c, f)
       \/ \E i \in 1..Len(res) : Cleanup(i)
Next == (Add /\ UNCHANGED <<fmt, bad, target, ops, res, phase>>) \/ Seal \/ Run \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Done == phase = "done"
\* what is extracted are the well-behaved files, in their last version
Extracted == \A i \in 1..Len(fs) :
  /\ mem[fs[i].id].t = "file" /\ mem[fs[i].id].esc = "in" /\ mem[fs[i].id].c = fs[i].c
  /\ ~\E j \in (fs[i].id + 1)..Len(mem) : mem[j].t = "file" /\ mem[j].esc = "in" /\ SamePath(mem[j], fs[i])
Complete == \A j \in 1..Len(mem) : mem[j].t = "file" /\ mem[j].esc = "in" => \E i \in 1..Len(fs) : SamePath(fs[i], mem[j])
\* at most one file comes first
OneMain == Main # 0 => Cardinality({i \in Cands : \A j \in Cands \ {i} : Before(fs[i], fs[j])}) = 1
\* an error leaves nothing behind, and nothing is left once everything was cleaned up
NoLeak == /\ (\A i \in 1..Len(res) : res[i] = "live" => Usable /\ fmt # "folder")
          /\ (Done => LET n == Replay(1, <<>>) IN Ops > 0 => n[Ops] = Cardinality(Live))
=============================================================================
