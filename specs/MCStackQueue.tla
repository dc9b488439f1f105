---------------------------- MODULE MCStackQueue ----------------------------
EXTENDS StackQueue, TLC, Json
CONSTANTS MAXLEN, BATCH, DEPTH
VARIABLES hist, ctr
S(n) == ToString(n)
H(x) == hist' = Append(hist, x)
Init == kind \in {"stack", "queue"} /\ items = <<>> /\ isopen = TRUE /\ keep \in BOOLEAN /\ res = Ok(<<>>) /\ hist = <<>> /\ ctr = 0
Next ==
    \/ \E n \in BATCH : Len(items) + n <= MAXLEN /\ Push([i \in 1..n |-> ctr + i]) /\ ctr' = (ctr + n) % 3 /\ H("push " \o S(n))
    \/ \E n \in BATCH : Pop(n) /\ UNCHANGED ctr /\ H("pop " \o S(n))
    \/ Peek /\ UNCHANGED ctr /\ H("peek")
    \/ kind = "stack" /\ \E p \in BOOLEAN : Persist(p) /\ UNCHANGED ctr /\ H(IF p THEN "persist 1" ELSE "persist 0")
    \/ kind = "stack" /\ Close /\ UNCHANGED ctr /\ H("close")
    \/ Reopen /\ UNCHANGED ctr /\ H("reopen")
Spec == Init /\ [][Next]_<<vars, hist, ctr>>
View == <<kind, items, isopen, keep, ctr>>
Emit == Len(hist) # DEPTH \/ PrintT("VGEN " \o ToJson(<<"kind " \o kind>> \o hist))
=============================================================================
