---------------------------- MODULE BTreeDesign ----------------------------
(* How a dynamic B-tree is kept: nodes of A to B entries, every inner node storing with each child a summary (least key, number
   of items). Inserting splits full nodes upwards; removing borrows from the left sibling, else from the right, else merges.
   It must refine BTree, stay balanced and filled, its summaries must stay truthful, and searching by them must be right. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, A, B, KEYS, MAXN, MAXID, ORD
VARIABLES root, next, res
vars == <<root, next, res>>
Key(v) == v \div W
NONE == [leaf |-> TRUE, e |-> <<>>, s |-> <<>>]
Len2(n) == Len(n.e)
RECURSIVE Flat(_), FlatSeq(_)
FlatSeq(cs) == IF cs = <<>> THEN <<>> ELSE Flat(cs[1]) \o FlatSeq(Tail(cs))
Flat(n) == IF n.leaf THEN n.e ELSE FlatSeq(n.e)
\* The summary of a node, from what it stores of its children, as the code computes it.
RECURSIVE SumC(_)
SumC(s) == IF s = <<>> THEN 0 ELSE s[1].c + SumC(Tail(s))
Summ(n) == IF n.leaf THEN [k |-> Key(n.e[1]), c |-> Len(n.e)] ELSE [k |-> n.s[1].k, c |-> SumC(n.s)]
Put(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))     \* v at 0-based position p
Cut(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
First(s, n) == IF s = <<>> THEN s ELSE SubSeq(s, 1, n)
From(s, n) == IF s = <<>> THEN s ELSE SubSeq(s, n + 1, Len(s))
Mk(leaf, e, s) == [leaf |-> leaf, e |-> e, s |-> s]
Add(n, p, x, sx) == Mk(n.leaf, Put(n.e, p, x), IF n.leaf THEN <<>> ELSE Put(n.s, p, sx))
\* Insert entry x (summary sx) at p: one node, or two.
AddSplit(n, p, x, sx) ==
    IF Len(n.e) < B THEN <<Add(n, p, x, sx)>>
    ELSE LET h == IF p <= B \div 2 THEN B \div 2 ELSE B - B \div 2    \* so that both parts have at least (B + 1) \div 2 afterwards
             l == Mk(n.leaf, First(n.e, h), First(n.s, h)) r == Mk(n.leaf, From(n.e, h), From(n.s, h))
         IN IF p <= B \div 2 THEN <<Add(l, p, x, sx), r>> ELSE <<l, Add(r, p - h, x, sx)>>
RECURSIVE Ins(_, _, _)
Ins(n, path, v) ==
    IF n.leaf THEN AddSplit(n, path[1], v, 0)
    ELSE LET i == path[1] r == Ins(n.e[i], Tail(path), v)
             n2 == Mk(FALSE, [n.e EXCEPT ![i] = r[1]], [n.s EXCEPT ![i] = Summ(r[1])])
         IN IF Len(r) = 1 THEN <<n2>> ELSE AddSplit(n2, i, r[2], Summ(r[2]))
Grow(r) == IF Len(r) = 1 THEN r[1] ELSE Mk(FALSE, r, <<Summ(r[1]), Summ(r[2])>>)
RECURSIVE Del(_, _)
Fix(n, i) ==   \* child i of n has become too small
    LET c == n.e[i] IN
    IF i > 1 /\ Len(n.e[i - 1].e) > A THEN
        LET l == n.e[i - 1] z == Len(l.e)
            c2 == Add(c, 0, l.e[z], IF c.leaf THEN 0 ELSE l.s[z]) l2 == Mk(l.leaf, First(l.e, z - 1), First(l.s, z - 1))
        IN Mk(FALSE, [n.e EXCEPT ![i] = c2, ![i - 1] = l2], [n.s EXCEPT ![i] = Summ(c2), ![i - 1] = Summ(l2)])
    ELSE IF i < Len(n.e) /\ Len(n.e[i + 1].e) > A THEN
        LET r == n.e[i + 1] c2 == Add(c, Len(c.e), r.e[1], IF c.leaf THEN 0 ELSE r.s[1]) r2 == Mk(r.leaf, From(r.e, 1), From(r.s, 1))
        IN Mk(FALSE, [n.e EXCEPT ![i] = c2, ![i + 1] = r2], [n.s EXCEPT ![i] = Summ(c2), ![i + 1] = Summ(r2)])
    ELSE LET a == IF i = 1 THEN 1 ELSE i - 1 m == Mk(c.leaf, n.e[a].e \o n.e[a + 1].e, n.e[a].s \o n.e[a + 1].s)
         IN Mk(FALSE, Cut([n.e EXCEPT ![a] = m], a), Cut([n.s EXCEPT ![a] = Summ(m)], a))
Del(n, path) ==
    IF n.leaf THEN Mk(TRUE, Cut(n.e, path[1]), <<>>)
    ELSE LET i == path[1] c == Del(n.e[i], Tail(path)) n2 == Mk(FALSE, [n.e EXCEPT ![i] = c], n.s)
         IN IF Len(c.e) >= A THEN Mk(FALSE, n2.e, [n.s EXCEPT ![i] = Summ(c)]) ELSE Fix(n2, i)
Shrink(n) == IF ~n.leaf /\ Len(n.e) = 1 THEN n.e[1] ELSE n
\* The leaf and index of the item at global position p; the end is behind the last item of the last leaf.
RECURSIVE PathOf(_, _)
PathOf(n, p) ==
    IF n.leaf THEN <<p>>
    ELSE LET RECURSIVE G(_, _) G(i, q) == LET z == Len(Flat(n.e[i])) IN IF q < z \/ i = Len(n.e) THEN <<i>> \o PathOf(n.e[i], q) ELSE G(i + 1, q - z)
         IN G(1, p)
\* Searching by the stored least keys: the position found.
RECURSIVE Search(_, _, _)
Search(n, k, upper) ==
    IF n.leaf THEN Cardinality({j \in 1..Len(n.e) : IF upper THEN Key(n.e[j]) <= k ELSE Key(n.e[j]) < k})
    ELSE LET ok(j) == j = Len(n.e) \/ (IF upper THEN k < n.s[j + 1].k ELSE n.s[j + 1].k >= k)
             j == CHOOSE x \in 1..Len(n.e) : ok(x) /\ \A y \in 1..x - 1 : ~ok(y)
         IN Len(FlatSeq(SubSeq(n.e, 1, j - 1))) + Search(n.e[j], k, upper)
Items == Flat(root)
Init == root = NONE /\ next = 1 /\ res = <<>>
InsertAt(p, k) ==
    /\ Len(Items) < MAXN /\ next <= MAXID /\ next' = next + 1 /\ res' = <<>>
    /\ root' = Grow(Ins(root, PathOf(root, p), k * W + next))
Insert(k) == InsertAt(Search(root, k, TRUE), k)
Erase(p) == p < Len(Items) /\ root' = Shrink(Del(root, PathOf(root, p))) /\ res' = <<Items[p + 1]>> /\ UNCHANGED next
Next == \/ \E k \in KEYS : IF ORD THEN Insert(k) ELSE \E p \in 0..Len(Items) : InsertAt(p, k)
        \/ \E p \in 0..Len(Items) - 1 : Erase(p)
Spec == Init /\ [][Next]_vars
Abs == INSTANCE BTree WITH ordered <- ORD, items <- Items, meta <- "", isopen <- TRUE
AbsNext == (\E p \in 0..MAXN, k \in KEYS : Abs!Insert(k * W + next, p)) \/ (\E p \in 0..MAXN : Abs!EraseAt(p))
Refines == Abs!Sane /\ [][AbsNext]_<<root, res>>
RECURSIVE Depth(_), Ok(_, _)
Depth(n) == IF n.leaf THEN 1 ELSE 1 + Depth(n.e[1])
Ok(n, isroot) ==
    /\ Len(n.e) <= B /\ (isroot \/ Len(n.e) >= A) /\ (~n.leaf => Len(n.e) >= (IF isroot THEN 2 ELSE 1))
    /\ n.leaf \/ (/\ Len(n.s) = Len(n.e)
                  /\ \A i \in 1..Len(n.e) : /\ Ok(n.e[i], FALSE) /\ Depth(n.e[i]) = Depth(n.e[1])
                                            /\ n.s[i] = [k |-> Key(Flat(n.e[i])[1]), c |-> Len(Flat(n.e[i]))])
Shape == Ok(root, TRUE)
Searching == ORD => \A k \in KEYS \cup {0, 9} : Search(root, k, TRUE) = Abs!UB(k) /\ Search(root, k, FALSE) = Abs!LB(k)
=============================================================================
