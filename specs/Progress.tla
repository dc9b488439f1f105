------------------------------ MODULE Progress ------------------------------
(* A tree of progress indicators. Node 1 is shown to the user. An indicator passes the part of its range it has done on
   to its parent as the same part of the share it was given there; it may do so late (how often is decided by the clock),
   but it never passes on more than it has done, and all of its share when it is finished. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tree,    \* sequence of [p, outer, range, cur, given, ph, w]
          shown    \* the percentage shown last, -1 before the first
vars == <<tree, shown>>
Min(a, b) == IF a < b THEN a ELSE b
Share(n) == IF n.range = 0 THEN (IF n.ph = "done" THEN n.outer ELSE n.given) ELSE (Min(n.cur, n.range) * n.outer) \div n.range
Percent(n) == IF n.range = 0 THEN 100 ELSE (n.cur * 100) \div n.range
RECURSIVE Report(_, _)
\* node i tells its parent, which tells its own at once, and so on to what is shown
Report(t, i) == IF i = 1 THEN t
                ELSE IF t[i].range = 0 /\ t[i].ph # "done" THEN t
                ELSE LET g == Share(t[i]) IN LET p == t[i].p IN
                     Report([t EXCEPT ![i].given = g, ![p].cur = @ + g - t[i].given], p)
RECURSIVE Reaches(_, _)
Reaches(t, i) == i = 1 \/ (~(t[i].range = 0 /\ t[i].ph # "done") /\ Reaches(t, t[i].p))
\* with report, what is shown is brought up to date as well
Up(t, i, now) == IF now THEN /\ tree' = Report(t, i)
                             /\ shown' = (IF Reaches(t, i) THEN Percent(Report(t, i)[1]) ELSE shown)
                 ELSE tree' = t /\ UNCHANGED shown
Root(range) == tree' = <<[p |-> 0, outer |-> 0, range |-> range, cur |-> 0, given |-> 0, ph |-> "set", w |-> -1]>> /\ shown' = -1
Setup(p, outer) == tree[p].ph = "run" /\ tree' = Append(tree, [p |-> p, outer |-> outer, range |-> 0, cur |-> 0, given |-> 0, ph |-> "set", w |-> -1]) /\ UNCHANGED shown
Move(i) == tree[i].ph = "set" /\ UNCHANGED vars
Init(i, range, outer) == /\ tree[i].ph = "set" /\ (tree[i].w = -1 => outer = tree[i].outer)
                         /\ Up([tree EXCEPT ![i].range = range, ![i].outer = outer, ![i].ph = "run"], i, TRUE)
\* node i is divided in proportion to recorded weights
RECURSIVE Parts(_, _)
Parts(i, w) == IF w = <<>> THEN <<>> ELSE <<[p |-> i, outer |-> 0, range |-> 0, cur |-> 0, given |-> 0, ph |-> "set", w |-> Head(w)]>> \o Parts(i, Tail(w))
Split(i, w, range) == /\ tree[i].ph = "set"
                      /\ Up([tree EXCEPT ![i].range = range, ![i].ph = "run"] \o Parts(i, w), i, TRUE)
Step(i, k) == /\ tree[i].ph = "run"
              /\ \E now \in BOOLEAN : Up([tree EXCEPT ![i].cur = @ + k], i, now)
Done(i) == /\ tree[i].ph = "run"
           /\ Up([tree EXCEPT ![i].cur = tree[i].range, ![i].ph = "done"], i, TRUE)
\* shares of a divided indicator: in proportion to the weights up to rounding
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Weights(p) == Sum([j \in 1..Len(tree) |-> IF tree[j].p = p /\ tree[j].w > 0 THEN tree[j].w ELSE 0])
Fair(i) == tree'[i].w >= 0 =>
             LET W == Weights(tree[i].p) IN
             IF tree[i].w = 0 THEN tree'[i].outer = 0
             ELSE LET x == tree'[i].outer * W - tree[i].w * tree[tree[i].p].range IN -2 * W < x /\ x <= 0
\* ---- properties
Kids(i) == {j \in 1..Len(tree) : tree[j].p = i}
WithinRange == \A i \in 1..Len(tree) : Sum([j \in 1..Len(tree) |-> IF tree[j].p = i THEN tree[j].given ELSE 0]) <= tree[i].cur
Bounded == \A i \in 1..Len(tree) : tree[i].given <= tree[i].outer /\ tree[i].given >= 0
Finished == \A i \in 2..Len(tree) : tree[i].ph = "done" => tree[i].given = tree[i].outer
Shown == shown >= -1 /\ shown <= 100
RootRange == Len(tree) > 0 => tree[1].cur <= tree[1].range
Grows == [][Len(tree') >= Len(tree) /\ Len(tree) > 0 => (\A i \in 1..Len(tree) : tree'[i].given >= tree[i].given /\ Min(tree'[i].cur, tree'[i].range) >= Min(tree[i].cur, tree[i].range)) /\ (shown' >= shown)]_vars
=============================================================================
