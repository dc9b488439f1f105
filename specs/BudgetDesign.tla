---------------------------- MODULE BudgetDesign ----------------------------
(* How an external merge sort turns the memory and the open files it is given for its three phases into
   a run length and fan-outs, and what it then holds.  Memory is counted in blocks: an open stream has one.
   - phase 1 holds the run buffer, two streams of run positions and the run being written,
   - phase 2 holds fan-out inputs, the output and the two streams of positions,
   - phase 3 holds final fan-out inputs; the positions are read to the end before.
   The fan-out is the largest for which a linear estimate of the use fits (found by bisection as in the code),
   at least two: with less memory than that takes, the estimate for two is used instead of what was given. *)
EXTENDS Naturals
CONSTANTS MEMS, FILES, ITEMS, SUMMED, DEFAULT
ASSUME SUMMED \in BOOLEAN   \* the overheads of the estimate's parts are added (FALSE: multiplied, an error once in the code)
VARIABLES ph, m, f, run, fan, ffan, items, runs, nxt, ins, out, pos, buf
vars == <<ph, m, f, run, fan, ffan, items, runs, nxt, ins, out, pos, buf>>
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Parts == IF SUMMED THEN 3 ELSE 0
Est(k) == k + Parts
RECURSIVE Bisect(_, _, _)
Bisect(lo, hi, mem) == IF lo + 1 < hi THEN LET mid == lo + (hi - lo) \div 2 IN IF Est(mid) <= mem THEN Bisect(mid, hi, mem) ELSE Bisect(lo, mid, mem)
                       ELSE lo
Fanout(mem, fs) == LET a == IF fs = 0 THEN DEFAULT ELSE fs IN Bisect(2, a - 2, mem)
Allowed(p) == CASE p = 1 -> Max(m[1], 4) [] p = 2 -> Max(m[2], 5) [] p = 3 -> Max(m[3], Max(5, 2 + 3))
AllowedFiles(p) == IF f[p] = 0 THEN DEFAULT ELSE f[p]
Init == /\ ph = 0 /\ m = <<0, 0, 0>> /\ f = <<0, 0, 0>> /\ run = 0 /\ fan = 0 /\ ffan = 0 /\ items = 0 /\ runs = 0 /\ nxt = 0 /\ ins = 0 /\ out = 0 /\ pos = 0 /\ buf = 0
Begin(a, b, c, g, h, n) ==
    /\ ph = 0 /\ ph' = 1 /\ m' = <<a, b, c>> /\ f' = <<0, g, h>> /\ items' = n
    /\ fan' = Fanout(b, g) /\ ffan' = Min(Fanout(c, h), fan')
    /\ run' = Max(1, a - 3)
    /\ buf' = run' /\ UNCHANGED <<runs, nxt, ins, out, pos>>
\* a full run is sorted and written; the positions are noted
WriteRun == /\ ph = 1 /\ items > 0 /\ out = 0 /\ out' = 1 /\ pos' = 2 /\ UNCHANGED <<ph, m, f, run, fan, ffan, items, runs, nxt, ins, buf>>
RunWritten == /\ ph = 1 /\ out = 1 /\ out' = 0 /\ items' = items - Min(items, run) /\ runs' = runs + 1 /\ UNCHANGED <<ph, m, f, run, fan, ffan, nxt, ins, pos, buf>>
End == /\ ph = 1 /\ items = 0 /\ out = 0 /\ ph' = 2 /\ buf' = 0 /\ UNCHANGED <<m, f, run, fan, ffan, items, runs, nxt, ins, out, pos>>
\* a level of merging: groups of at most fan runs become one each
Merge == /\ ph = 2 /\ ins = 0 /\ runs > 0 /\ (nxt > 0 \/ runs > ffan)
         /\ ins' = Min(fan, runs) /\ out' = 1 /\ UNCHANGED <<ph, m, f, run, fan, ffan, items, runs, nxt, pos, buf>>
Merged == /\ ph = 2 /\ ins > 0 /\ ins' = 0 /\ out' = 0 /\ runs' = runs - ins /\ nxt' = nxt + 1 /\ UNCHANGED <<ph, m, f, run, fan, ffan, items, pos, buf>>
Level == /\ ph = 2 /\ ins = 0 /\ runs = 0 /\ nxt > 0 /\ runs' = nxt /\ nxt' = 0 /\ UNCHANGED <<ph, m, f, run, fan, ffan, items, ins, out, pos, buf>>
Report == /\ ph = 2 /\ ins = 0 /\ nxt = 0 /\ runs <= ffan /\ ph' = 3 /\ pos' = 0 /\ ins' = runs /\ UNCHANGED <<m, f, run, fan, ffan, items, runs, nxt, out, buf>>
Done == /\ ph = 3 /\ ph' = 4 /\ ins' = 0 /\ UNCHANGED <<m, f, run, fan, ffan, items, runs, nxt, out, pos, buf>>
Next == \/ \E a, b, c \in MEMS, g, h \in FILES, n \in ITEMS : Begin(a, b, c, g, h, n)
        \/ WriteRun \/ RunWritten \/ End \/ Merge \/ Merged \/ Level \/ Report \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Held == buf + ins + out + pos
InMemory == ph \in 1..3 => Held <= Allowed(ph)
InFiles == ph \in 2..3 => ins + out + pos <= AllowedFiles(ph)
Progress == ph = 2 /\ ins > 0 => (ins > 1 \/ runs = 1)
Enough == ph \in 1..3 => fan >= 2 /\ ffan >= 2 /\ ffan <= fan
Finishes == <>(ph \in {0, 4}) /\ (ph = 1 ~> ph = 4)
=============================================================================
