------------------------------ MODULE PqDesign ------------------------------
(* The external priority queue as tpie/priority_queue.inl builds it: insertion buffer (opq), deletion buffer (buf),
   K groups, each with a group buffer and K slots on disk. Checked to refine a bag of keys whose minimum leaves. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, MM, K, KEYS, MAXSIZE
VARIABLES q, bag, out
vars == <<q, bag, out>>

Sorted(s) == SortSeq(s, <)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE CatSlots(_, _, _)
CatSlots(qq, g, j) == IF j = K THEN <<>> ELSE qq.sl[g * K + j] \o CatSlots(qq, g, j + 1)
RECURSIVE CatGb(_, _)
CatGb(qq, g) == IF g = qq.r THEN <<>> ELSE qq.gb[g] \o CatGb(qq, g + 1)

RECURSIVE FreeSlot(_, _), EmptyGroup(_, _), RemoveGb(_, _)
FreeSlot(qq, g) ==
    IF qq.err \/ g >= K THEN [q |-> [qq EXCEPT !.err = TRUE], i |-> 0]
    ELSE LET free == {i \in (g * K)..(g * K + K - 1) : qq.sl[i] = <<>>} IN
         IF free # {} THEN [q |-> qq, i |-> CHOOSE i \in free : \A j \in free : i <= j]
         ELSE LET q1 == EmptyGroup(qq, g) IN
              IF q1.err THEN [q |-> q1, i |-> 0]
              ELSE IF q1.sl[g * K] # <<>> THEN FreeSlot(q1, g) ELSE [q |-> q1, i |-> g * K]
EmptyGroup(qq, g) ==
    LET f == FreeSlot(qq, g + 1)
        q1 == [f.q EXCEPT !.r = Max2(@, g + 2)]
        moved == \E j \in 0..(K - 1) : q1.sl[g * K + j] = <<>>
    IN IF f.q.err THEN f.q
       ELSE IF moved THEN q1    \* making room there has already emptied slots here
       ELSE LET q2 == [q1 EXCEPT !.sl = [i \in DOMAIN q1.sl |-> IF i = f.i THEN Sorted(CatSlots(q1, g, 0))
                                                              ELSE IF i \in (g * K)..(g * K + K - 1) THEN <<>> ELSE q1.sl[i]]]
            IN IF q2.gb[g + 1] # <<>> THEN RemoveGb(q2, g + 1) ELSE q2
RemoveGb(qq, g) ==
    LET f == FreeSlot(qq, 0)
        q1 == f.q
        n0 == Len(q1.gb[0])
        both == Sorted(q1.gb[0] \o q1.gb[g])
    IN IF q1.err \/ q1.gb[g] = <<>> THEN q1
       ELSE [q1 EXCEPT !.gb = [@ EXCEPT ![0] = SubSeq(both, 1, n0), ![g] = <<>>],
                       !.sl = [@ EXCEPT ![f.i] = SubSeq(both, n0 + 1, Len(both))], !.r = Max2(@, 1)]

Spill(qq) ==
    LET f == FreeSlot(qq, 0)
        q1 == f.q
        b1 == Sorted(q1.opq \o q1.buf)
        nb == Len(q1.buf)
        b2 == Sorted(q1.gb[0] \o SubSeq(b1, nb + 1, Len(b1)))
        n0 == Len(q1.gb[0])
    IN IF q1.err THEN q1
       ELSE [q1 EXCEPT !.buf = SubSeq(b1, 1, nb), !.gb = [@ EXCEPT ![0] = SubSeq(b2, 1, n0)],
                       !.sl = [@ EXCEPT ![f.i] = SubSeq(b2, n0 + 1, Len(b2))], !.opq = <<>>, !.r = Max2(@, 1)]

RECURSIVE FillGb(_, _)
FillGb(qq, g) ==
    LET full == {i \in (g * K)..(g * K + K - 1) : qq.sl[i] # <<>>} IN
    IF full = {} \/ Len(qq.gb[g]) = M THEN qq
    ELSE LET i == CHOOSE i \in full : \A j \in full : qq.sl[i][1] < qq.sl[j][1] \/ (qq.sl[i][1] = qq.sl[j][1] /\ i <= j)
         IN FillGb([qq EXCEPT !.gb = [@ EXCEPT ![g] = Append(@, qq.sl[i][1])], !.sl = [@ EXCEPT ![i] = Tail(@)]], g)
RECURSIVE FillGroups(_, _)
FillGroups(qq, i) ==
    IF i >= qq.r THEN qq
    ELSE LET q1 == IF Len(qq.gb[i]) < MM THEN FillGb(qq, i) ELSE qq
             q2 == IF q1.gb[i] = <<>> /\ i = q1.r - 1 THEN [q1 EXCEPT !.r = @ - 1] ELSE q1
         IN FillGroups(q2, i + 1)
RECURSIVE FillBuf(_)
FillBuf(qq) ==
    LET full == {g \in 0..(qq.r - 1) : qq.gb[g] # <<>>} IN
    IF full = {} \/ Len(qq.buf) = MM THEN qq
    ELSE LET g == CHOOSE g \in full : \A h \in full : qq.gb[g][1] < qq.gb[h][1] \/ (qq.gb[g][1] = qq.gb[h][1] /\ g <= h)
         IN FillBuf([qq EXCEPT !.buf = Append(@, qq.gb[g][1]), !.gb = [@ EXCEPT ![g] = Tail(@)]])
Fresh(qq) == IF qq.buf = <<>> /\ Len(qq.opq) # qq.size /\ qq.r # 0 THEN FillBuf(FillGroups(qq, 0)) ELSE qq

AddBag(b, x) == [b EXCEPT ![x] = @ + 1]
BagSize(b) == LET RECURSIVE Sm(_) Sm(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN b[x] + Sm(S \ {x}) IN Sm(DOMAIN b)
Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
RECURSIVE CountAll(_, _, _)
CountAll(f, D, x) == IF D = {} THEN 0 ELSE LET i == CHOOSE j \in D : TRUE IN Count(f[i], x) + CountAll(f, D \ {i}, x)

Init == /\ q = [opq |-> <<>>, buf |-> <<>>, gb |-> [g \in 0..(K - 1) |-> <<>>], sl |-> [i \in 0..(K * K - 1) |-> <<>>], r |-> 0, size |-> 0, err |-> FALSE]
        /\ bag = [x \in KEYS |-> 0] /\ out = -1
Push(x) ==
    /\ q.size < MAXSIZE
    /\ LET q1 == IF Len(q.opq) = M THEN Spill(q) ELSE q IN
       /\ ~q1.err   \* the queue is full
       /\ q' = [q1 EXCEPT !.opq = Sorted(Append(@, x)), !.size = @ + 1]
    /\ bag' = AddBag(bag, x) /\ out' = -1
Pop ==
    /\ q.size > 0
    /\ LET q1 == Fresh(q)
           inbuf == q1.buf # <<>> /\ (q1.opq = <<>> \/ q1.buf[1] < q1.opq[1])
       IN /\ out' = IF inbuf THEN q1.buf[1] ELSE IF q1.opq = <<>> THEN 99 ELSE q1.opq[1]
          /\ q' = IF inbuf THEN [q1 EXCEPT !.buf = Tail(@), !.size = @ - 1] ELSE [q1 EXCEPT !.opq = Tail(@), !.size = @ - 1]
    /\ bag' = [bag EXCEPT ![out'] = @ - 1]
Next == (\E x \in KEYS : Push(x)) \/ Pop
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
View == q
(* The parts together hold exactly the bag. *)
Content == \A x \in KEYS : bag[x] = Count(q.opq, x) + Count(q.buf, x) + CountAll(q.gb, DOMAIN q.gb, x) + CountAll(q.sl, DOMAIN q.sl, x)
Leq(s, t) == s = <<>> \/ t = <<>> \/ s[Len(s)] <= t[1]
HeapOrder == /\ \A g \in DOMAIN q.gb : Leq(q.buf, q.gb[g])
             /\ \A g \in DOMAIN q.gb : \A j \in 0..(K - 1) : Leq(q.gb[g], q.sl[g * K + j])
             /\ \A g \in DOMAIN q.gb : Leq(q.buf, q.gb[g]) /\ \A j \in 0..(K - 1) : Leq(q.buf, q.sl[g * K + j])
InUse == \A g \in DOMAIN q.gb : g >= q.r => q.gb[g] = <<>> /\ \A j \in 0..(K - 1) : q.sl[g * K + j] = <<>>
(* Slots and buffers never hold more than they have room for. *)
Room == /\ Len(q.opq) <= M /\ Len(q.buf) <= MM /\ \A g \in DOMAIN q.gb : Len(q.gb[g]) <= M
MinLeaves == [][out' # -1 => \A x \in KEYS : bag[x] > 0 => out' <= x]_vars
=============================================================================
