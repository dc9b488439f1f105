---------------------------- MODULE SerSortDesign ----------------------------
(* How serialization_sorter sorts: items of varying size fill a buffer of CAP units, full buffers become run files
   numbered a..c-1, where a..b-1 belong to the level being merged and b..c-1 to the next one. It must refine ExtSort. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS W, KEYS, SIZES, MAXN, CAP, FAN, FINALFAN
VARIABLES phase, buf, size, internal, files, a, b, c, todo, rd, next
vars == <<phase, buf, size, internal, files, a, b, c, todo, rd, next>>
Key(v) == v \div W
Sorted(s) == SortSeq(s, LAMBDA x, y : Key(x) < Key(y))
Range(s) == {s[i] : i \in 1..Len(s)}
Min(x, y) == IF x < y THEN x ELSE y
RECURSIVE Cat(_, _, _)
Cat(f, i, j) == IF i >= j THEN <<>> ELSE f[i] \o Cat(f, i + 1, j)

Init == /\ phase = "form" /\ buf = <<>> /\ size = 0 /\ internal = FALSE /\ files = <<>> /\ a = 0 /\ b = 0 /\ c = 0 /\ todo = 0
        /\ rd = <<>> /\ next = 1
NewFile(s) == files' = (c :> s) @@ files /\ c' = c + 1
NoFile == UNCHANGED <<files, c>>
Push(k, s) ==
    /\ phase = "form" /\ next <= MAXN /\ s <= CAP
    /\ IF size + s > CAP THEN NewFile(Sorted(buf)) /\ buf' = <<k * W + next>> /\ size' = s
       ELSE NoFile /\ buf' = Append(buf, k * W + next) /\ size' = size + s
    /\ next' = next + 1 /\ UNCHANGED <<phase, internal, a, b, todo, rd>>
End ==
    /\ phase = "form" /\ phase' = "merge" /\ size' = 0
    /\ IF c = 0 THEN internal' = TRUE /\ buf' = Sorted(buf) /\ NoFile
       ELSE internal' = FALSE /\ buf' = <<>> /\ (IF buf = <<>> THEN NoFile ELSE NewFile(Sorted(buf)))
    /\ UNCHANGED <<a, b, todo, rd, next>>
(* Only what was not yet reported moves to disk. *)
Evacuate ==
    /\ phase \in {"merge", "report"}
    /\ IF internal THEN /\ internal' = FALSE /\ buf' = <<>> /\ (IF buf = <<>> THEN NoFile ELSE NewFile(buf))
       ELSE UNCHANGED <<internal, buf>> /\ NoFile
    /\ UNCHANGED <<phase, size, a, b, todo, rd, next>>
Merge ==
    /\ phase = "merge"
    /\ phase' = IF ~internal /\ c - b > FINALFAN THEN "merging" ELSE "report"
    /\ todo' = IF ~internal /\ c - b > FINALFAN THEN c - b ELSE 0
    /\ UNCHANGED <<buf, size, internal, files, a, b, c, rd, next>>
(* One group of the current level. Reading with nothing left of this level begins the next level. *)
MergeGroup ==
    /\ phase = "merging" /\ todo > 0
    /\ LET f == Min(FAN, todo) b2 == IF b = a THEN c ELSE b
       IN /\ (IF f = 1 /\ b - a = 1
              THEN b' = a /\ UNCHANGED <<files, a, c>>          \* the last run is passed on as it is
              ELSE /\ b' = b2 /\ a' = a + f
                   /\ files' = (c :> Sorted(Cat(files, a, a + f))) @@ [i \in (DOMAIN files) \ (a..(a + f - 1)) |-> files[i]]
                   /\ c' = c + 1)
          /\ todo' = todo - f
    /\ UNCHANGED <<phase, buf, size, internal, rd, next>>
LevelDone ==
    /\ phase = "merging" /\ todo = 0
    /\ IF c - b > FINALFAN THEN todo' = c - b /\ phase' = phase ELSE phase' = "report" /\ todo' = 0
    /\ UNCHANGED <<buf, size, internal, files, a, b, c, rd, next>>
Pull ==
    /\ phase = "report"
    /\ IF internal THEN buf # <<>> /\ buf' = Tail(buf) /\ UNCHANGED <<rd, files>>
       ELSE LET h == IF rd = <<>> THEN [i \in 1..(c - b) |-> files[b + i - 1]] ELSE rd
                live == {i \in DOMAIN h : h[i] # <<>>}
            IN /\ live # {} /\ UNCHANGED <<buf, files>>
               /\ \E i \in live : (\A j \in live : Key(h[i][1]) <= Key(h[j][1])) /\ rd' = [h EXCEPT ![i] = Tail(@)]
    /\ UNCHANGED <<phase, size, internal, a, b, c, todo, next>>
Next == (\E k \in KEYS, s \in SIZES : Push(k, s)) \/ End \/ Evacuate \/ Merge \/ MergeGroup \/ LevelDone \/ Pull
Spec == Init /\ [][Next]_vars

Left ==
    IF phase = "report" /\ ~internal /\ rd # <<>> THEN UNION {Range(rd[i]) : i \in DOMAIN rd}
    ELSE Range(buf) \cup UNION {Range(files[i]) : i \in {x \in DOMAIN files : x >= a /\ x < c}}
Abs == INSTANCE ExtSort WITH phase <- (IF phase = "merging" THEN "merge" ELSE phase), items <- Left
Refines == Abs!Spec
(* Everything left is in the last level when reporting begins, in few enough runs; files still there are those in use. *)
Ready == phase = "report" /\ ~internal => c - b <= FINALFAN /\ a = b
Files == DOMAIN files = a..(c - 1)
=============================================================================
