----------------------------- MODULE StackQueue -----------------------------
(* An external stack or queue: a sequence of items; a stack takes from the end it puts to, a queue from the other.
   A named stack may be closed and opened again; what becomes of the file of a closed stack is its persistence. *)
EXTENDS Integers, Sequences
VARIABLES kind,    \* "stack", "queue"
          items, isopen, keep,   \* keep: the file outlives the object
          res
vars == <<kind, items, isopen, keep, res>>
Ok(r) == [x |-> "", r |-> r]
Fail(k) == [x |-> k, r |-> <<>>]
Start(k, p) == kind' = k /\ items' = <<>> /\ isopen' = TRUE /\ keep' = p /\ res' = Ok(<<>>)

Push(vs) == isopen /\ items' = items \o vs /\ res' = Ok(<<>>) /\ UNCHANGED <<kind, isopen, keep>>
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* Take up to n items one after another; a take from the empty container fails and changes nothing. *)
Pop(n) ==
    LET m == IF n <= Len(items) THEN n ELSE Len(items) IN
    /\ isopen
    /\ res' = [x |-> IF m < n THEN "eos" ELSE "",
               r |-> IF kind = "stack" THEN Rev(SubSeq(items, Len(items) - m + 1, Len(items))) ELSE SubSeq(items, 1, m)]
    /\ items' = IF kind = "stack" THEN SubSeq(items, 1, Len(items) - m) ELSE SubSeq(items, m + 1, Len(items))
    /\ UNCHANGED <<kind, isopen, keep>>
Peek ==
    /\ isopen
    /\ res' = IF items = <<>> THEN Fail("eos") ELSE Ok(<<IF kind = "stack" THEN items[Len(items)] ELSE items[1]>>)
    /\ UNCHANGED <<kind, items, isopen, keep>>
Persist(p) == isopen /\ keep' = p /\ res' = Ok(<<>>) /\ UNCHANGED <<kind, items, isopen>>
Close == isopen /\ isopen' = FALSE /\ items' = (IF keep THEN items ELSE <<>>) /\ res' = Ok(<<>>) /\ UNCHANGED <<kind, keep>>
Reopen == kind = "stack" /\ ~isopen /\ isopen' = TRUE /\ keep' = TRUE /\ res' = Ok(<<>>) /\ UNCHANGED <<kind, items>>
----------------------------------------------------------------------------
Size == Len(items)
TypeOK == isopen \in BOOLEAN /\ (~isopen /\ ~keep => items = <<>>)
(* What a single step takes out is what the discipline says. *)
Discipline == [][ Len(items') < Len(items) /\ isopen' =>
                    IF kind = "stack" THEN items' = SubSeq(items, 1, Len(items')) /\ res'.r = Rev(SubSeq(items, Len(items') + 1, Len(items)))
                    ELSE items = res'.r \o items' ]_vars
=============================================================================
