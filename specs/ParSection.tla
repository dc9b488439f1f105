------------------------------ MODULE ParSection ------------------------------
(* Sections of a pipeline that several copies of a chain of nodes run in their own threads, as their user sees them.
   A section s hands every item to one copy, which turns x into Fan(s, x) items, and each copy outputs some more when it
   ends; the rest of the pipeline gets all of that, in any order or, when asked to, in the order of the input. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES secs,     \* the sections: fan-out parameters, number of copies, whether the order is kept
          given,    \* per section: the items pushed into it, in order
          taken,    \* per section: set of items some copy has handled
          outs,     \* per section: what came out, in order
          cs,       \* per section and copy: "new" / "begun" / "ended"
          thrown, phase
vars == <<secs, given, taken, outs, cs, thrown, phase>>
S == 1..Len(secs)
Fan(s, x) == [j \in 1..((x * secs[s].a + secs[s].b) % secs[s].m) |-> x * 10 + j - 1]
EndItems(s, c) == {(900 + c) * 10 + j : j \in 0..(secs[s].ends - 1)}
Seen(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE Flat(_, _, _)
Flat(s, q, n) == IF n = 0 THEN <<>> ELSE Flat(s, q, n - 1) \o Fan(s, q[n])
Start(ss) == /\ secs' = ss /\ given' = [s \in 1..Len(ss) |-> <<>>] /\ outs' = [s \in 1..Len(ss) |-> <<>>] /\ taken' = [s \in 1..Len(ss) |-> {}]
             /\ cs' = [s \in 1..Len(ss) |-> [c \in 1..ss[s].jobs |-> "new"]] /\ thrown' = {} /\ phase' = "built"
Begin(s, c) == /\ phase = "built" /\ cs[s][c] = "new" /\ given[s] = <<>> /\ cs' = [cs EXCEPT ![s][c] = "begun"] /\ UNCHANGED <<secs, given, taken, outs, thrown, phase>>
In(s, x) == /\ phase = "built" /\ \A c \in 1..secs[s].jobs : cs[s][c] = "begun"
            /\ given' = [given EXCEPT ![s] = Append(@, x)] /\ UNCHANGED <<secs, taken, outs, cs, thrown, phase>>
\* A copy gets an item; also between the exception that ends the pipeline and its destruction.
Work(s, c, x) == /\ phase \in {"built", "failed"} /\ cs[s][c] = "begun" /\ x \in Seen(given[s]) /\ x \notin taken[s]
                 /\ taken' = [taken EXCEPT ![s] = @ \cup {x}] /\ UNCHANGED <<secs, given, outs, cs, thrown, phase>>
End(s, c) == /\ phase = "built" /\ cs[s][c] = "begun" /\ taken[s] = Seen(given[s])
             /\ cs' = [cs EXCEPT ![s][c] = "ended"] /\ UNCHANGED <<secs, given, taken, outs, thrown, phase>>
\* Everything the copies can have output so far.
Made(s) == UNION {Seen(Fan(s, x)) : x \in taken[s]} \cup UNION {EndItems(s, c) : c \in {c \in 1..secs[s].jobs : cs[s][c] # "new"}}
InOrder(s, y) == LET f == Flat(s, given[s], Len(given[s])) IN LET k == Len(outs[s]) + 1 IN IF k <= Len(f) THEN y = f[k] ELSE TRUE
Out(s, y) == /\ phase = "built" /\ y \in Made(s) /\ y \notin Seen(outs[s]) /\ (secs[s].order => InOrder(s, y))
             /\ outs' = [outs EXCEPT ![s] = Append(@, y)] /\ UNCHANGED <<secs, given, taken, cs, thrown, phase>>
Throw(v) == /\ phase \in {"built", "failed"} /\ thrown' = thrown \cup {v} /\ UNCHANGED <<secs, given, taken, outs, cs, phase>>
Complete == /\ thrown = {}
            /\ \A s \in S : /\ \A c \in 1..secs[s].jobs : cs[s][c] = "ended"
                            /\ taken[s] = Seen(given[s]) /\ Seen(outs[s]) = Made(s)
Ran == phase = "built" /\ Complete /\ phase' = "ran" /\ UNCHANGED <<secs, given, taken, outs, cs, thrown>>
Caught(v) == phase = "built" /\ v \in thrown /\ phase' = "failed" /\ UNCHANGED <<secs, given, taken, outs, cs, thrown>>
\* The memory limit was reached and enforced.
OutOfMemory == phase = "built" /\ phase' = "failed" /\ UNCHANGED <<secs, given, taken, outs, cs, thrown>>
Gone == /\ (phase \in {"ran", "failed"} \/ (phase = "built" /\ \A s \in S : given[s] = <<>> /\ \A c \in 1..secs[s].jobs : cs[s][c] = "new"))
        /\ phase' = "gone" /\ UNCHANGED <<secs, given, taken, outs, cs, thrown>>
Once == \A s \in S : Cardinality(Seen(outs[s])) = Len(outs[s])
=============================================================================
