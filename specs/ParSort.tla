------------------------------ MODULE ParSort ------------------------------
(* Parallel quicksort as a set of interval tasks: every task either partitions its interval around a pivot and
   hands the left part to a new task, or sorts what it holds. It is over when no task is left. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, V, MIN
VARIABLES a, a0, tasks
vars == <<a, a0, tasks>>
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Perm(s, t) == DOMAIN s = DOMAIN t /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
Init == a \in [1..N -> V] /\ a0 = a /\ tasks = {<<1, N + 1>>}
\* all arrays that agree with a outside the interval and hold the same items inside
Inside(l, h) == {b \in [1..N -> V] : (\A i \in 1..N : (i < l \/ i >= h) => b[i] = a[i]) /\ Perm(b, a)}
Split(t) == /\ t[2] - t[1] >= MIN
            /\ \E b \in Inside(t[1], t[2]) : \E p \in t[1]..(t[2] - 1) :
               /\ \A i \in t[1]..(p - 1) : b[i] <= b[p]
               /\ \A i \in (p + 1)..(t[2] - 1) : b[p] <= b[i]
               /\ a' = b /\ tasks' = (tasks \ {t}) \cup {<<t[1], p>>, <<p + 1, t[2]>>}
            /\ UNCHANGED a0
Leaf(t) == /\ t[2] - t[1] < MIN
           /\ \E b \in Inside(t[1], t[2]) : (\A i \in t[1]..(t[2] - 2) : b[i] <= b[i + 1]) /\ a' = b
           /\ tasks' = tasks \ {t} /\ UNCHANGED a0
Over == tasks = {} /\ UNCHANGED vars
Next == Over \/ \E t \in tasks : Split(t) \/ Leaf(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(\E t \in tasks : Split(t) \/ Leaf(t))
Same == Perm(a, a0)
Result == tasks = {} => Sorted(a)
Disjoint == \A s, t \in tasks : s # t => s[2] <= t[1] \/ t[2] <= s[1]
Ends == <>(tasks = {})
=============================================================================
