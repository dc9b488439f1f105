------------------------------ MODULE TreeShape ------------------------------
(* What a B-tree must look like inside. A tree is a sequence of nodes in preorder; node n is
   [leaf, d: depth, p: parent (0: none), i: the position it reports to have in its parent, up: the parent it reports equals the
    real one, v: its items (leaf), mk: the least key it reports for each child or item, c and s: for each child the stored
    number and sum of the items below it]. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT KW    \* item v has key v \div KW
Children(T, n) == SelectSeq([m \in 1..Len(T) |-> m], LAMBDA m : T[m].p = n)
Size(T, n) == IF T[n].leaf THEN Len(T[n].v) ELSE Len(Children(T, n))
RECURSIVE Items(_, _), Cat(_, _)
Cat(T, cs) == IF cs = <<>> THEN <<>> ELSE Items(T, cs[1]) \o Cat(T, Tail(cs))
Items(T, n) == IF T[n].leaf THEN T[n].v ELSE Cat(T, Children(T, n))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Height(T) == IF Len(T) = 0 THEN 0 ELSE 1 + T[CHOOSE n \in 1..Len(T) : T[n].leaf].d
Balanced(T) == \A m, n \in 1..Len(T) : T[m].leaf /\ T[n].leaf => T[m].d = T[n].d
Filled(T, leafmin, leafmax, innermin, innermax) ==
    \A n \in 1..Len(T) : LET z == Size(T, n) IN
        /\ z <= (IF T[n].leaf THEN leafmax ELSE innermax)
        /\ z >= (IF T[n].p = 0 THEN (IF T[n].leaf THEN 1 ELSE 2) ELSE IF T[n].leaf THEN leafmin ELSE innermin)
Linked(T) ==
    \A n \in 1..Len(T) :
        /\ T[n].up
        /\ T[n].p = 0 => n = 1
        /\ T[n].p # 0 => T[n].i + 1 \in 1..Len(Children(T, T[n].p)) /\ Children(T, T[n].p)[T[n].i + 1] = n
Truthful(T, ordered) ==
    \A n \in 1..Len(T) :
        IF T[n].leaf THEN T[n].mk = (IF ordered THEN [j \in 1..Len(T[n].v) |-> T[n].v[j] \div KW] ELSE <<>>)
        ELSE LET cs == Children(T, n) IN
             /\ Len(T[n].c) = Len(cs) /\ Len(T[n].s) = Len(cs)
             /\ \A j \in 1..Len(cs) : LET it == Items(T, cs[j]) IN
                   T[n].c[j] = Len(it) /\ T[n].s[j] = Sum(it) /\ (ordered => Len(T[n].mk) = Len(cs) /\ T[n].mk[j] = it[1] \div KW)
Good(T, ordered, items, leafmin, leafmax, innermin, innermax) ==
    IF items = <<>> THEN T = <<>>
    ELSE /\ Len(T) > 0 /\ Linked(T) /\ Items(T, 1) = items /\ Balanced(T)
         /\ Filled(T, leafmin, leafmax, innermin, innermax) /\ Truthful(T, ordered)
=============================================================================
