------------------------------- MODULE ExtPq -------------------------------
(* A priority queue of distinguishable items. An item is key * W + id; the comparator sees only the key. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W
VARIABLES items, res
vars == <<items, res>>
Key(v) == v \div W
Start == items' = {} /\ res' = ""
Range(s) == {s[i] : i \in 1..Len(s)}
Push(vs) == /\ Range(vs) \cap items = {} /\ Cardinality(Range(vs)) = Len(vs)
            /\ items' = items \cup Range(vs) /\ res' = ""
(* With very little memory the queue can hold only so much; it says so and keeps what it has. *)
PushFull(vs, n) == /\ Len(vs) < n /\ Range(vs) \cap items = {} /\ Cardinality(Range(vs)) = Len(vs)
                   /\ items' = items \cup Range(vs) /\ res' = "full"
(* s can be what Len(s) pops yield. *)
MinOrder(s) ==
    /\ \A i \in 1..(Len(s) - 1) : Key(s[i]) <= Key(s[i + 1])
    /\ Range(s) \subseteq items /\ Cardinality(Range(s)) = Len(s)
    /\ s # <<>> => \A v \in items \ Range(s) : Key(v) >= Key(s[Len(s)])
Pop(n, s) == /\ Len(s) = (IF n <= Cardinality(items) THEN n ELSE Cardinality(items)) /\ MinOrder(s)
             /\ items' = items \ Range(s) /\ res' = (IF Len(s) < n THEN "empty" ELSE "")
Top(s) == /\ IF items = {} THEN s = <<>> /\ res' = "empty" ELSE Len(s) = 1 /\ MinOrder(s) /\ res' = ""
          /\ UNCHANGED items
(* All items with the smallest key, in any order. *)
PopEquals(s) ==
    /\ IF items = {} THEN s = <<>> /\ res' = "empty"
       ELSE s # <<>> /\ MinOrder(s) /\ Key(s[1]) = Key(s[Len(s)]) /\ res' = ""
            /\ \A v \in items \ Range(s) : Key(v) > Key(s[1])
    /\ items' = items \ Range(s)
=============================================================================
