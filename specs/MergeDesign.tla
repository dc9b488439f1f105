----------------------------- MODULE MergeDesign -----------------------------
(* How merge_sorter sorts: a buffer of runLength items; sorted runs in 2 * fanout files, the files of even and of odd
   merge levels taking turns; a run is a position in its file and a length bound; the last level is merged while
   reporting, after an extra merge if it has more runs than finalFanout. It must refine ExtSort. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, KEYS, MAXN, RUN, FAN, FINALFAN
VARIABLES phase,      \* form, merge, merging, report
          buf,        \* items in memory
          internal,   \* reporting from memory
          files,      \* file index -> items
          posn,       \* run number -> position in its file, of the level being read / being written
          level, runs,\* level being read and how many runs it has
          at,         \* first run of the next group to merge
          newRuns,    \* runs written into level + 1
          heap,       \* heads of the final merge: sequence of <<remaining items of that run>>
          final,      \* final merger: [level, count, special]
          evac, next
vars == <<phase, buf, internal, files, posn, level, runs, at, newRuns, heap, final, evac, next>>

Key(v) == v \div W
Idx(l, r) == (l % 2) * FAN + (r % FAN)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RunLen(l) == RUN * Pow(FAN, l)
Sorted(s) == SortSeq(s, LAMBDA a, b : Key(a) < Key(b))
SeqMin(a, b) == IF a < b THEN a ELSE b
(* What a merger that starts at the position of run r of level l can read of it. *)
Stream(l, r) == LET f == files[Idx(l, r)] p == posn[l % 2][r]
                IN SubSeq(f, p + 1, SeqMin(Len(f), p + RunLen(l)))
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
(* The merge of sorted sequences; among equal keys the design promises nothing, so any sorted arrangement will do. *)
MergeAll(ss) == Sorted(Concat(ss))

Init == /\ phase = "form" /\ buf = <<>> /\ internal = FALSE /\ files = [i \in 0..(2 * FAN - 1) |-> <<>>]
        /\ posn = [p \in 0..1 |-> <<>>] /\ level = 0 /\ runs = 0 /\ at = 0 /\ newRuns = 0 /\ heap = <<>>
        /\ final = [level |-> 0, count |-> 0, special |-> FALSE, ready |-> FALSE] /\ evac = FALSE /\ next = 1

(* Append a run to its file; the first FAN runs of a level truncate their file. *)
WriteRun(fs, ps, l, r, s) ==
    LET i == Idx(l, r) old == IF r < FAN THEN <<>> ELSE fs[i]
    IN [f |-> [fs EXCEPT ![i] = old \o s], p |-> [ps EXCEPT ![l % 2] = (r :> Len(old)) @@ @]]

Spill == LET w == WriteRun(files, posn, 0, runs, Sorted(buf)) IN files' = w.f /\ posn' = w.p /\ runs' = runs + 1

Push(k) ==
    /\ phase = "form" /\ next <= MAXN
    /\ IF Len(buf) >= RUN THEN Spill /\ buf' = <<k * W + next>> ELSE buf' = Append(buf, k * W + next) /\ UNCHANGED <<files, posn, runs>>
    /\ next' = next + 1 /\ UNCHANGED <<phase, internal, level, at, newRuns, heap, final, evac>>

End ==
    /\ phase = "form" /\ phase' = "merge"
    /\ IF runs = 0 THEN internal' = TRUE /\ buf' = Sorted(buf) /\ UNCHANGED <<files, posn, runs>>
       ELSE internal' = FALSE /\ Spill /\ buf' = <<>>
    /\ UNCHANGED <<level, at, newRuns, heap, final, evac, next>>

FinalStreams(fi) ==
    IF fi.special THEN [i \in 1..FINALFAN |-> IF i < FINALFAN THEN Stream(fi.level, i - 1) ELSE
          LET f == files[Idx(fi.level + 1, (FINALFAN - 1) \div FAN)] p == posn[(fi.level + 1) % 2][(FINALFAN - 1) \div FAN]
          IN SubSeq(f, p + 1, SeqMin(Len(f), p + RunLen(fi.level + 1)))]
    ELSE [i \in 1..fi.count |-> Stream(fi.level, i - 1)]

(* Moving to disk: only needed when the items are in memory; afterwards there is one run and reporting is external. *)
Evacuate ==
    /\ phase \in {"merge", "report"} /\ (phase = "report" => heap = <<>> /\ (internal => next >= 1))
    /\ IF internal
       THEN /\ internal' = FALSE /\ Spill /\ buf' = <<>>
            /\ final' = [level |-> 0, count |-> IF buf = <<>> THEN 0 ELSE 1, special |-> FALSE, ready |-> TRUE]
       ELSE UNCHANGED <<internal, files, posn, runs, buf, final>>
    /\ evac' = (phase = "report" \/ internal \/ evac)
    /\ UNCHANGED <<phase, level, at, newRuns, heap, next>>

Calc ==
    /\ phase = "merge"
    /\ IF internal THEN phase' = "report" ELSE phase' = "merging"
    /\ UNCHANGED <<buf, internal, files, posn, level, runs, at, newRuns, heap, final, evac, next>>

(* One group of up to FAN runs of a level becomes one run of the next. *)
MergeGroup ==
    /\ phase = "merging" /\ runs > FAN /\ at < runs
    /\ LET n == SeqMin(FAN, runs - at)
           w == WriteRun(files, [posn EXCEPT ![(level + 1) % 2] = IF newRuns = 0 THEN <<>> ELSE @], level + 1, at \div FAN,
                         MergeAll([i \in 1..n |-> Stream(level, at + i - 1)]))
       IN files' = w.f /\ posn' = w.p /\ at' = at + n /\ newRuns' = newRuns + 1
    /\ UNCHANGED <<phase, buf, internal, level, runs, heap, final, evac, next>>
NextLevel ==
    /\ phase = "merging" /\ runs > FAN /\ at >= runs
    /\ level' = level + 1 /\ runs' = newRuns /\ at' = 0 /\ newRuns' = 0
    /\ UNCHANGED <<phase, buf, internal, files, posn, heap, final, evac, next>>
FinalPrep ==
    /\ phase = "merging" /\ runs <= FAN
    /\ IF final.ready THEN UNCHANGED <<final, files, posn>>
       ELSE IF runs > FINALFAN
       THEN LET i == FINALFAN - 1
                w == WriteRun(files, [posn EXCEPT ![(level + 1) % 2] = <<>>], level + 1, i \div FAN,
                              MergeAll([j \in 1..(runs - i) |-> Stream(level, i + j - 1)]))
            IN files' = w.f /\ posn' = w.p /\ final' = [level |-> level, count |-> runs, special |-> TRUE, ready |-> TRUE]
       ELSE final' = [level |-> level, count |-> runs, special |-> FALSE, ready |-> TRUE] /\ UNCHANGED <<files, posn>>
    /\ phase' = "report" /\ evac' = FALSE
    /\ UNCHANGED <<buf, internal, level, runs, at, newRuns, heap, next>>
(* next = 0 once pulling has begun. *)
PullInternal ==
    /\ phase = "report" /\ internal /\ buf # <<>> /\ buf' = Tail(buf) /\ next' = 0
    /\ UNCHANGED <<phase, internal, files, posn, level, runs, at, newRuns, heap, final, evac>>
PullExternal ==
    /\ phase = "report" /\ ~internal
    /\ LET h == IF next # 0 THEN FinalStreams(final) ELSE heap
           live == {i \in DOMAIN h : h[i] # <<>>}
       IN /\ live # {}
          /\ \E i \in live : /\ \A j \in live : Key(h[i][1]) <= Key(h[j][1])
                             /\ heap' = [h EXCEPT ![i] = Tail(@)]
    /\ next' = 0 /\ evac' = FALSE
    /\ UNCHANGED <<phase, buf, internal, files, posn, level, runs, at, newRuns, final>>

Next == (\E k \in KEYS : Push(k)) \/ End \/ Evacuate \/ Calc \/ MergeGroup \/ NextLevel \/ FinalPrep \/ PullInternal \/ PullExternal
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
Range(s) == {s[i] : i \in 1..Len(s)}
(* Items not yet reported. *)
Left ==
    IF phase \in {"form", "merge"} \/ internal
    THEN Range(buf) \cup UNION {Range(Stream(0, r)) : r \in 0..(runs - 1)}
    ELSE IF phase = "merging"
    THEN UNION {Range(Stream(level, r)) : r \in at..(runs - 1)}
         \cup (IF newRuns = 0 THEN {} ELSE UNION {Range(Stream(level + 1, r)) : r \in 0..(newRuns - 1)})
    ELSE LET h == IF next # 0 THEN FinalStreams(final) ELSE heap IN UNION {Range(h[i]) : i \in DOMAIN h}
Abs == INSTANCE ExtSort WITH phase <- (IF phase = "merging" THEN "merge" ELSE phase), items <- Left
Refines == Abs!Spec
(* Fan-in limits: no merge reads more runs at once than allowed. *)
FanIn == phase = "report" /\ ~internal => Len(FinalStreams(final)) <= (IF final.special THEN FINALFAN ELSE SeqMin(FAN, FINALFAN)) \/ next = 0
RunsSorted == \A r \in 0..(runs - 1) : phase = "merging" /\ at <= r => LET s == Stream(level, r) IN \A i \in 1..(Len(s) - 1) : Key(s[i]) <= Key(s[i + 1])
(* All items come out before it reports the end. *)
=============================================================================
