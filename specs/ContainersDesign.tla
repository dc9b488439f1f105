-------------------------- MODULE ContainersDesign --------------------------
(* The three algorithms inside the containers, next to the abstract content they stand for:
   a circular queue with ever-growing counters, a heap whose top is replaced in place, and
   disjoint sets with path halving where the second representative is hung below the first. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS CAP, KEYS, ELEMS, STEPS
VARIABLES first, last, ring, q,   heap, bag,   par, cls,   steps
vars == <<first, last, ring, q, heap, bag, par, cls, steps>>
NONE == -1
Init == /\ first = 0 /\ last = 0 /\ ring = [i \in 0..(CAP - 1) |-> NONE] /\ q = <<>>
        /\ heap = <<>> /\ bag = [k \in KEYS |-> 0]
        /\ par = [e \in ELEMS |-> NONE] /\ cls = [e \in ELEMS |-> NONE]
        /\ steps = 0
Step == steps < STEPS /\ steps' = steps + 1
\* queue
QPush(v) == /\ last - first < CAP /\ Step
            /\ ring' = [ring EXCEPT ![last % CAP] = v] /\ last' = last + 1 /\ q' = Append(q, v)
            /\ UNCHANGED <<first, heap, bag, par, cls>>
QPop == /\ first # last /\ Step /\ first' = first + 1 /\ q' = Tail(q)
        /\ UNCHANGED <<last, ring, heap, bag, par, cls>>
\* heap with the least key on top (1-based)
Swp(h, i, j) == [h EXCEPT ![i] = h[j], ![j] = h[i]]
RECURSIVE Up(_, _)
Up(h, i) == IF i = 1 \/ h[i \div 2] <= h[i] THEN h ELSE Up(Swp(h, i, i \div 2), i \div 2)
RECURSIVE Down(_, _)
Down(h, i) == LET l == 2 * i  r == 2 * i + 1 n == Len(h)
                  s == IF l > n THEN i ELSE IF r <= n /\ h[r] < h[l] THEN r ELSE l
              IN IF s = i \/ h[i] <= h[s] THEN h ELSE Down(Swp(h, i, s), s)
HPush(k) == /\ Len(heap) < CAP /\ Step /\ heap' = Up(Append(heap, k), Len(heap) + 1) /\ bag' = [bag EXCEPT ![k] = @ + 1]
            /\ UNCHANGED <<first, last, ring, q, par, cls>>
HPop == /\ heap # <<>> /\ Step
        /\ heap' = (IF Len(heap) = 1 THEN <<>> ELSE Down(SubSeq(Swp(heap, 1, Len(heap)), 1, Len(heap) - 1), 1))
        /\ bag' = [bag EXCEPT ![heap[1]] = @ - 1] /\ UNCHANGED <<first, last, ring, q, par, cls>>
HPopPush(k) == /\ heap # <<>> /\ Step /\ heap' = Down([heap EXCEPT ![1] = k], 1)
               /\ bag' = [j \in KEYS |-> bag[j] - (IF j = heap[1] THEN 1 ELSE 0) + (IF j = k THEN 1 ELSE 0)]
               /\ UNCHANGED <<first, last, ring, q, par, cls>>
\* disjoint sets
RECURSIVE Find(_, _)
Find(p, t) == LET x == p[p[t]] IN IF x = t THEN <<p, t>> ELSE Find([p EXCEPT ![t] = x], x)
Make(e) == par[e] = NONE /\ Step /\ par' = [par EXCEPT ![e] = e] /\ cls' = [cls EXCEPT ![e] = e]
           /\ UNCHANGED <<first, last, ring, q, heap, bag>>
Union(a, b) == /\ par[a] # NONE /\ par[b] # NONE /\ Step
               /\ LET fa == Find(par, a)  fb == Find(fa[1], b) IN
                  par' = IF fa[2] = fb[2] THEN fb[1] ELSE [fb[1] EXCEPT ![fb[2]] = fa[2]]
               /\ cls' = [e \in ELEMS |-> IF cls[e] # NONE /\ cls[e] = cls[b] THEN cls[a] ELSE cls[e]]
               /\ UNCHANGED <<first, last, ring, q, heap, bag>>
Next == \/ \E v \in KEYS : QPush(v) \/ HPush(v) \/ HPopPush(v)
        \/ QPop \/ HPop \/ (\E e \in ELEMS : Make(e)) \/ (\E a, b \in ELEMS : Union(a, b))
\* the three structures do not touch each other, so each is explored alone
QNext == QPop \/ \E v \in KEYS : QPush(v)
HNext == HPop \/ \E v \in KEYS : HPush(v) \/ HPopPush(v)
DNext == (\E e \in ELEMS : Make(e)) \/ (\E a, b \in ELEMS : Union(a, b))
Spec == Init /\ [][Next]_vars
QSpec == Init /\ [][QNext]_vars
HSpec == Init /\ [][HNext]_vars
DSpec == Init /\ [][DNext]_vars
QueueOk == Len(q) = last - first /\ \A i \in 1..Len(q) : ring[(first + i - 1) % CAP] = q[i]
HeapOk == /\ \A i \in 2..Len(heap) : heap[i \div 2] <= heap[i]
          /\ \A k \in KEYS : Cardinality({i \in 1..Len(heap) : heap[i] = k}) = bag[k]
Root(e) == Find(par, e)[2]
SetsOk == /\ \A e \in ELEMS : (par[e] = NONE) = (cls[e] = NONE)
          /\ \A e, f \in ELEMS : par[e] # NONE /\ par[f] # NONE => ((Root(e) = Root(f)) = (cls[e] = cls[f]))
          \* asking changes no answer
          /\ \A e, f \in ELEMS : par[e] # NONE /\ par[f] # NONE => Find(Find(par, e)[1], f)[2] = Root(f)
=============================================================================
