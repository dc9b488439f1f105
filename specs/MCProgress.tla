----------------------------- MODULE MCProgress -----------------------------
EXTENDS Progress, TLC
CONSTANTS MaxNodes, Ranges, Rs
Used(i) == Sum([j \in 1..Len(tree) |-> IF tree[j].p = i THEN tree[j].outer ELSE 0])
Own(i) == tree[i].cur - Sum([j \in 1..Len(tree) |-> IF tree[j].p = i THEN tree[j].given ELSE 0])
Left(i) == tree[i].range - Used(i) - Own(i)
MCInit == tree = <<[p |-> 0, outer |-> 0, range |-> 0, cur |-> 0, given |-> 0, ph |-> "set", w |-> -1]>> /\ shown = -1
MCNext == \/ tree[1].ph = "set" /\ \E r \in Rs : Init(1, r, 0)
          \/ \E i \in 1..Len(tree) :
             \/ Len(tree) < MaxNodes /\ tree[i].ph = "run" /\ Left(i) >= 0 /\ (\A j \in Kids(i) : tree[j].w = -1) /\ \E o \in 0..Left(i) : Setup(i, o)
             \/ i > 1 /\ tree[i].w = -1 /\ \E r \in Ranges : Init(i, r, tree[i].outer)
             \/ i > 1 /\ tree[i].w >= 0 /\ \E r \in Ranges : \E o \in 0..4 : Init(i, r, o) /\ Fair(i)
             \/ i > 1 /\ Len(tree) + 2 <= MaxNodes /\ tree[i].w = -1 /\ \E w \in {<<1, 2>>, <<0, 1>>} : Split(i, w, 4)
             \/ \E k \in 1..2 : k <= Left(i) /\ (\A j \in Kids(i) : tree[j].w = -1) /\ Step(i, k)
             \/ i > 1 /\ Kids(i) = {} /\ tree[i].range > 0 /\ tree[i].cur <= tree[i].range /\ Step(i, 3)     \* more steps than announced
             \/ (\A j \in Kids(i) : tree[j].ph = "done") /\ tree[i].cur <= tree[i].range + 3 /\ Done(i)
MCSpec == MCInit /\ [][MCNext]_vars
=============================================================================
