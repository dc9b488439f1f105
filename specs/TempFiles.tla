----------------------------- MODULE TempFiles -----------------------------
(* Handles to temporary files. A handle refers to an object; copies refer to the same one. The file of an object is
   removed when the last handle goes, unless it is persistent. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES h,      \* slot -> object, 0 if the slot is empty
          obj,    \* sequence of [path, persist, rec]; path 0 as long as it has none
          disk,   \* paths that exist
          gen,    \* paths that were generated
          kept    \* recorded sizes of persistent files whose handles are gone
vars == <<h, obj, disk, gen, kept>>
Slots == 1..6
RECURSIVE SumRec(_, _)
SumRec(S, o) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN o[x].rec + SumRec(S \ {x}, o)
Live(f) == {f[s] : s \in Slots} \ {0}
Usage(f, o, k) == SumRec(Live(f), o) + k
RECURSIVE SumKept(_, _)
SumKept(S, o) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN (IF o[x].persist THEN o[x].rec ELSE 0) + SumKept(S \ {x}, o)
\* the handles become f: objects nobody refers to any more are let go
Become(f, o) == LET gone == Live(h) \ Live(f) IN
                /\ h' = f /\ obj' = o
                /\ disk' = disk \ {o[x].path : x \in {y \in gone : ~o[y].persist}}
                /\ kept' = kept + SumKept(gone, o)
New(path, persist) == [path |-> path, persist |-> persist, rec |-> 0]
Make(s) == Become([h EXCEPT ![s] = Len(obj) + 1], Append(obj, New(0, FALSE))) /\ UNCHANGED gen
Name(s, p, persist) == Become([h EXCEPT ![s] = Len(obj) + 1], Append(obj, New(p, persist))) /\ UNCHANGED gen
Copy(s, q) == Become([h EXCEPT ![q] = h[s]], obj) /\ UNCHANGED gen
Move(s, q) == Become([h EXCEPT ![q] = h[s], ![s] = 0], obj) /\ UNCHANGED gen
Drop(s) == Become([h EXCEPT ![s] = 0], obj) /\ UNCHANGED gen
DropAll == Become([s \in Slots |-> 0], obj) /\ UNCHANGED gen
Persist(s, p) == obj' = [obj EXCEPT ![h[s]].persist = p] /\ UNCHANGED <<h, disk, gen, kept>>
\* the first question for the path decides it: one nobody has had before
Path(s, p, fresh) == /\ h[s] # 0
                     /\ (IF obj[h[s]].path = 0 THEN fresh /\ p \notin gen /\ p \notin disk /\ obj' = [obj EXCEPT ![h[s]].path = p] /\ gen' = gen \cup {p}
                         ELSE p = obj[h[s]].path /\ UNCHANGED <<obj, gen>>)
                     /\ UNCHANGED <<h, disk, kept>>
Use(s, p, rec) == /\ h[s] # 0 /\ obj[h[s]].path = p
                  /\ obj' = [obj EXCEPT ![h[s]].rec = rec] /\ disk' = disk \cup {p} /\ UNCHANGED <<h, gen, kept>>
Lost(p) == disk' = disk \ {p} /\ UNCHANGED <<h, obj, gen, kept>>
Store(p) == disk' = disk \cup {p} /\ UNCHANGED <<h, obj, gen, kept>>
Finish == disk' = disk \ gen /\ UNCHANGED <<h, obj, gen, kept>>
Paths(o) == {x \in 1..Len(o) : o[x].path # 0}
\* two live objects with generated names never share them
Unique == \A x, y \in Live(h) : x # y /\ obj[x].path \in gen => obj[x].path # obj[y].path
=============================================================================
