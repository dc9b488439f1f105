----------------------------- MODULE Containers -----------------------------
(* The in-memory containers. Two containers of one kind (so that they can be copied, moved and swapped):
   c[i] = [n |-> elements in use, mem |-> sequence of places]. A value is key * W + id; comparators see the key. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W
VARIABLES kind, c
vars == <<kind, c>>
UNDEF == -1
Kinds == {"stack", "vector", "queue", "pq", "set", "multiset", "map", "multimap", "dsu", "array", "bits", "maybe"}
Key(v) == v \div W
Rng(s) == {s[i] : i \in 1..Len(s)}
Min2(a, b) == IF a < b THEN a ELSE b
Undef(n) == [i \in 1..n |-> UNDEF]
New(i, n) == c' = [c EXCEPT ![i] = [n |-> 0, mem |-> Undef(n)]] /\ UNCHANGED kind
Clear(i) == c' = [c EXCEPT ![i].n = 0] /\ UNCHANGED kind
Cur(i) == SubSeq(c[i].mem, 1, c[i].n)
Set(i, s) == c' = [c EXCEPT ![i] = [n |-> Len(s), mem |-> s]] /\ UNCHANGED kind
\* ---------------- stack, vector: places keep what was in them
SPush(i, v) == c[i].n < Len(c[i].mem) /\ c' = [c EXCEPT ![i] = [n |-> @.n + 1, mem |-> [@.mem EXCEPT ![c[i].n + 1] = v]]] /\ UNCHANGED kind
SRepush(i) == c[i].n < Len(c[i].mem) /\ c[i].mem[c[i].n + 1] # UNDEF /\ c' = [c EXCEPT ![i].n = @ + 1] /\ UNCHANGED kind
SPop(i) == c[i].n > 0 /\ c' = [c EXCEPT ![i].n = @ - 1] /\ UNCHANGED kind
SAssign(i, j, v) == j < c[i].n /\ c' = [c EXCEPT ![i].mem[j + 1] = v] /\ UNCHANGED kind
\* ---------------- queue: mem is its content followed by free places
QPush(i, v) == c[i].n < Len(c[i].mem) /\ c' = [c EXCEPT ![i] = [n |-> @.n + 1, mem |-> [@.mem EXCEPT ![c[i].n + 1] = v]]] /\ UNCHANGED kind
QPop(i) == c[i].n > 0 /\ c' = [c EXCEPT ![i] = [n |-> @.n - 1, mem |-> Append(Tail(@.mem), UNDEF)]] /\ UNCHANGED kind
\* ---------------- priority queue: order of mem is of no meaning, all values differ
Remove(s, v) == SelectSeq(s, LAMBDA x : x # v)
Least(s, v) == v \in Rng(s) /\ \A w \in Rng(s) : Key(v) <= Key(w)
PSet(i, s) == Len(s) <= Len(c[i].mem) /\ c' = [c EXCEPT ![i] = [n |-> Len(s), mem |-> s \o Undef(Len(c[i].mem) - Len(s))]] /\ UNCHANGED kind
PPush(i, vs) == PSet(i, Cur(i) \o vs)
PPop(i, v) == Least(Cur(i), v) /\ PSet(i, Remove(Cur(i), v))
PPopPush(i, v, w) == Least(Cur(i), v) /\ PSet(i, Append(Remove(Cur(i), v), w))
\* ---------------- small sorted sets and maps
Lower(s, k) == Cardinality({j \in 1..Len(s) : Key(s[j]) < k})
Upper(s, k) == Cardinality({j \in 1..Len(s) : Key(s[j]) <= k})
InsertAt(s, p, v) == SubSeq(s, 1, p) \o <<v>> \o SubSeq(s, p + 1, Len(s))
Multi == kind \in {"multiset", "multimap"}
TIns(s, v) == IF Multi THEN InsertAt(s, Upper(s, Key(v)), v)
              ELSE IF \E j \in 1..Len(s) : Key(s[j]) = Key(v) THEN s ELSE InsertAt(s, Lower(s, Key(v)), v)
TInsert(i, v) == Set(i, TIns(c[i].mem, v))
RECURSIVE TAll(_, _)
TAll(s, vs) == IF vs = <<>> THEN s ELSE TAll(TIns(s, Head(vs)), Tail(vs))
TErase(i, a, b) == a <= b /\ b <= Len(c[i].mem) /\ Set(i, SubSeq(c[i].mem, 1, a) \o SubSeq(c[i].mem, b + 1, Len(c[i].mem)))
RECURSIVE LexLess(_, _)
LexLess(s, t) == IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE
                 ELSE IF Key(s[1]) < Key(t[1]) THEN TRUE ELSE IF Key(t[1]) < Key(s[1]) THEN FALSE ELSE LexLess(Tail(s), Tail(t))
\* ---------------- disjoint sets: mem[e + 1] is the least element of e's set, or UNDEF
DMake(i, e) == c[i].mem[e + 1] = UNDEF /\ c' = [c EXCEPT ![i] = [n |-> @.n + 1, mem |-> [@.mem EXCEPT ![e + 1] = e]]] /\ UNCHANGED kind
DUnion(i, a, b) == LET m == c[i].mem  x == m[a + 1]  y == m[b + 1] IN
    /\ x # UNDEF /\ y # UNDEF
    /\ c' = [c EXCEPT ![i] = [n |-> IF x = y THEN @.n ELSE @.n - 1, mem |-> [j \in 1..Len(m) |-> IF m[j] \in {x, y} THEN Min2(x, y) ELSE m[j]]]]
    /\ UNCHANGED kind
\* f[e + 1] is what find answers for e
Represents(i, f) == LET m == c[i].mem IN
    /\ Len(f) = Len(m)
    /\ \A e \in 1..Len(m) : IF m[e] = UNDEF THEN f[e] = UNDEF
                            ELSE f[e] \in 0..(Len(m) - 1) /\ m[f[e] + 1] = m[e] /\ f[f[e] + 1] = f[e]
    /\ \A e, g \in 1..Len(m) : m[e] # UNDEF /\ m[e] = m[g] => f[e] = f[g]
\* ---------------- arrays and packed arrays
AFill(i, n, v) == Set(i, [j \in 1..n |-> v])
ASet(i, j, v) == j < c[i].n /\ c' = [c EXCEPT ![i].mem[j + 1] = v] /\ UNCHANGED kind
\* a new array from the places x..y-1 of another
ASlice(i, x, y) == x <= y /\ y <= c[i].n /\ Set(1 - i, SubSeq(c[i].mem, x + 1, y))
\* ---------------- maybe: one place; nothing that holds an item is constructed again, copied or assigned
MConstruct(i, v) == c[i].n = 0 /\ c' = [c EXCEPT ![i] = [n |-> 1, mem |-> <<v>>]] /\ UNCHANGED kind
Reverse(s) == [j \in 1..Len(s) |-> s[Len(s) + 1 - j]]
\* ---------------- both
Copy(i, j) == c' = [c EXCEPT ![j] = c[i]] /\ UNCHANGED kind
Swap == c' = [i \in 0..1 |-> c[1 - i]] /\ UNCHANGED kind
=============================================================================
