------------------------------ MODULE MCExtPq ------------------------------
EXTENDS ExtPq
CONSTANTS KEYS, IDS
Universe == {k * W + i : k \in KEYS, i \in IDS}
Seqs(S_, n) == {s \in [1..n -> S_] : \A i, j \in 1..n : i # j => s[i] # s[j]}
Init == items = {} /\ res = ""
MCNext ==
    \/ \E v \in Universe \ items : Push(<<v>>)
    \/ \E n \in 1..2 : \E s \in Seqs(items, IF n <= Cardinality(items) THEN n ELSE Cardinality(items)) : Pop(n, s)
    \/ \E m \in 0..Cardinality(items) : \E s \in Seqs(items, m) : PopEquals(s)
    \/ \E m \in 0..1 : \E s \in Seqs(items, m) : Top(s)
Spec == Init /\ [][MCNext]_vars
View == items
MinLeaves == [][\A v \in items \ items' : \A w \in items' : Key(v) <= Key(w)]_vars
AlwaysAns == /\ ENABLED (\E m \in 0..1 : \E s \in Seqs(items, m) : Top(s))
             /\ ENABLED (\E m \in 0..Cardinality(items) : \E s \in Seqs(items, m) : PopEquals(s))
=============================================================================
