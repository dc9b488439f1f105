-------------------------------- MODULE BTree --------------------------------
(* A B-tree seen by its user: a sequence of items, sorted by key unless the tree is unordered. Item v has key v \div W. *)
EXTENDS Integers, Sequences
CONSTANT W
VARIABLES ordered, items, meta, isopen, res
vars == <<ordered, items, meta, isopen, res>>
Key(v) == v \div W
Count(P(_)) == LET RECURSIVE C(_) C(i) == IF i = 0 THEN 0 ELSE C(i - 1) + (IF P(items[i]) THEN 1 ELSE 0) IN C(Len(items))
SortedSeq(s) == \A i \in 1..Len(s) - 1 : Key(s[i]) <= Key(s[i + 1])
Put(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
Cut(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
\* Positions are 0..Len(items); the last one is the end.
LB(k) == Count(LAMBDA v : Key(v) < k)
UB(k) == Count(LAMBDA v : Key(v) <= k)
At(p) == IF p < Len(items) THEN <<items[p + 1]>> ELSE <<>>

Start(o) == ordered' = o /\ items' = <<>> /\ meta' = "" /\ isopen' = TRUE /\ res' = <<>>
(* v now stands at position p. Inserting by value may place it anywhere the order allows. *)
Insert(v, p) ==
    /\ isopen /\ p \in 0..Len(items) /\ items' = Put(items, p, v)
    /\ ordered => /\ (p > 0 => Key(items[p]) <= Key(v)) /\ (p < Len(items) => Key(v) <= Key(items[p + 1]))
    /\ res' = <<>> /\ UNCHANGED <<ordered, meta, isopen>>
EraseAt(p) == isopen /\ p \in 0..Len(items) - 1 /\ items' = Cut(items, p) /\ res' = <<items[p + 1]>> /\ UNCHANGED <<ordered, meta, isopen>>
EraseKey(k) ==
    /\ isopen /\ ordered /\ items' = SelectSeq(items, LAMBDA v : Key(v) # k) /\ res' = <<UB(k) - LB(k)>>
    /\ UNCHANGED <<ordered, meta, isopen>>
Ask(r) == isopen /\ res' = r /\ UNCHANGED <<ordered, items, meta, isopen>>
Find(k) == ordered /\ Ask(IF LB(k) < UB(k) THEN At(LB(k)) ELSE <<>>)
LowerBound(k) == ordered /\ Ask(At(LB(k)))
UpperBound(k) == ordered /\ Ask(At(UB(k)))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Min(a, b) == IF a < b THEN a ELSE b
(* n steps from position p, forwards or backwards: the items met. *)
Forward(p, n) == p <= Len(items) /\ Ask(SubSeq(items, p + 1, Min(Len(items), p + n)))
Backward(p, n) == p <= Len(items) /\ Ask(Rev(SubSeq(items, (IF p > n THEN p - n ELSE 0) + 1, p)))
(* Bulk building replaces the tree. *)
Build(vs, m) == (ordered => SortedSeq(vs)) /\ items' = vs /\ meta' = m /\ isopen' = TRUE /\ res' = <<>> /\ UNCHANGED ordered
GetMeta == isopen /\ res' = <<meta>> /\ UNCHANGED <<ordered, items, meta, isopen>>
SetMeta(m) == isopen /\ meta' = m /\ res' = <<>> /\ UNCHANGED <<ordered, items, isopen>>
Close == isopen /\ isopen' = FALSE /\ res' = <<>> /\ UNCHANGED <<ordered, items, meta>>
Open == ~isopen /\ isopen' = TRUE /\ res' = <<>> /\ UNCHANGED <<ordered, items, meta>>
Sane == ordered => SortedSeq(items)
=============================================================================
