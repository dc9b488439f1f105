------------------------------- MODULE ExtSort -------------------------------
(* An external sorter: items go in while it is forming, come out in order while it is reporting. An item is
   key * W + id; the comparator sees only the key. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W
VARIABLES phase, items
vars == <<phase, items>>
Key(v) == v \div W
Range(s) == {s[i] : i \in 1..Len(s)}
Start == phase' = "form" /\ items' = {}
Push(vs) == /\ phase = "form" /\ Range(vs) \cap items = {} /\ Cardinality(Range(vs)) = Len(vs)
            /\ items' = items \cup Range(vs) /\ UNCHANGED phase
End == phase = "form" /\ phase' = "merge" /\ UNCHANGED items
Calc == phase = "merge" /\ phase' = "report" /\ UNCHANGED items
Evacuate == phase \in {"merge", "report"} /\ UNCHANGED vars
MinOrder(s) ==
    /\ \A i \in 1..(Len(s) - 1) : Key(s[i]) <= Key(s[i + 1])
    /\ Range(s) \subseteq items /\ Cardinality(Range(s)) = Len(s)
    /\ s # <<>> => \A v \in items \ Range(s) : Key(v) >= Key(s[Len(s)])
Pull(s) == phase = "report" /\ MinOrder(s) /\ items' = items \ Range(s) /\ UNCHANGED phase
Next == (\E v \in 0..(20 * W) : v \notin items /\ Push(<<v>>)) \/ End \/ Calc \/ Evacuate \/ (\E v \in items : Pull(<<v>>))
Spec == phase = "form" /\ items = {} /\ [][Next]_vars
=============================================================================
