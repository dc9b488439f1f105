-------------------------------- MODULE Log --------------------------------
(* Log streams and the targets listening to them. There is a stream of text for every level (0..10, most severe first);
   stream Direct is what is handed to the targets without a stream. Text written waits in its stream until the stream is
   flushed or has to make room; then it goes to every listening target. Target File writes a file and target Err the
   terminal: they leave out what is less severe than their threshold, and show the groups the text belongs to.

   A delivery is <<target, stream, level, position, length, depth>>, a group event <<target, +1/-1, group, depth>>. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Levels, Direct, File, Err, FileThreshold, ErrThreshold, DebugLevel
Streams == Levels \cup {Direct}
VARIABLES targets,   \* who listens
          on,        \* whether logging is enabled
          written,   \* how much was ever written to each stream
          lo, hi,    \* how much of it no longer waits: only between two bounds known while nobody looks
          groups,    \* the groups open as far as File knows
          sel        \* the level of the stream without a level
vars == <<targets, on, written, lo, hi, groups, sel>>
\* ---- who gets to see text
Receivers == IF targets = {} THEN {Err} ELSE targets
Passes(t, l) == CASE targets = {} -> TRUE [] t = File -> l <= FileThreshold [] t = Err -> l <= ErrThreshold [] OTHER -> TRUE
Depth(t, l) == IF t = File /\ l = DebugLevel THEN Len(groups) ELSE -1
Seen(l) == on /\ \E t \in Receivers : Passes(t, l)
Of(d, t, s) == SelectSeq(d, LAMBDA x : x[1] = t /\ x[2] = s)
RECURSIVE Covers(_, _, _)
Covers(d, a, b) == IF d = <<>> THEN a = b ELSE d[1][4] = a /\ d[1][5] > 0 /\ a + d[1][5] <= b /\ Covers(Tail(d), a + d[1][5], b)
First(d, s) == LET x == SelectSeq(d, LAMBDA y : y[2] = s) IN x[1][4]
Last(d, s) == LET x == SelectSeq(d, LAMBDA y : y[2] = s) IN x[Len(x)][4] + x[Len(x)][5]
Some(d, s) == \E i \in 1..Len(d) : d[i][2] = s
\* exactly the text between a and b of stream s, of level l, went to everybody it was for
Delivered(d, s, l, a, b) ==
  /\ \A t \in Receivers : IF on /\ Passes(t, l) THEN Covers(Of(d, t, s), a, b) ELSE Of(d, t, s) = <<>>
  /\ \A i \in 1..Len(d) : d[i][2] = s => d[i][1] \in Receivers /\ d[i][3] = (IF d[i][1] \in {File, Err} THEN s ELSE l)
                                         /\ d[i][6] = Depth(d[i][1], l)
Only(d, ss) == \A i \in 1..Len(d) : d[i][2] \in ss
\* ---- writing and flushing
Write(l, n, d) ==
  /\ written' = [written EXCEPT ![l] = @ + n]
  /\ Only(d, {l})
  /\ IF Some(d, l)
     THEN LET a == First(d, l) b == Last(d, l) IN
          /\ lo[l] <= a /\ a <= hi[l] /\ b <= written[l] + n /\ Delivered(d, l, l, a, b)
          /\ lo' = [lo EXCEPT ![l] = b] /\ hi' = [hi EXCEPT ![l] = b]
     ELSE /\ Delivered(d, l, l, 0, 0)
          /\ lo' = lo
          /\ hi' = IF Seen(l) THEN hi ELSE [hi EXCEPT ![l] = written[l] + n]
  /\ UNCHANGED <<targets, on, groups, sel>>
Drained(d, l) == IF Some(d, l) THEN LET a == First(d, l) IN lo[l] <= a /\ a <= hi[l] /\ Delivered(d, l, l, a, written[l])
                 ELSE Delivered(d, l, l, 0, 0) /\ (Seen(l) => hi[l] = written[l])
Empty(ls) == /\ lo' = [s \in Streams |-> IF s \in ls THEN written[s] ELSE lo[s]]
             /\ hi' = [s \in Streams |-> IF s \in ls THEN written[s] ELSE hi[s]]
Flush(l, d) ==
  /\ Only(d, {l})
  /\ IF targets = {} THEN d = <<>> /\ UNCHANGED <<lo, hi>>     \* it waits for somebody to come
     ELSE Drained(d, l) /\ Empty({l})
  /\ UNCHANGED <<targets, on, written, groups, sel>>
\* past the streams: whoever is there gets it
Hand(l, n, d) ==
  /\ Only(d, {Direct})
  /\ written' = [written EXCEPT ![Direct] = @ + n]
  /\ IF targets = {} THEN d = <<>> ELSE Delivered(d, Direct, l, written[Direct], written[Direct] + (IF Seen(l) THEN n ELSE 0))
  /\ lo' = [lo EXCEPT ![Direct] = written[Direct] + n] /\ hi' = [hi EXCEPT ![Direct] = written[Direct] + n]
  /\ UNCHANGED <<targets, on, groups, sel>>
Level == IF sel <= 7 THEN sel ELSE 3
Select(l) == sel' = l /\ UNCHANGED <<targets, on, written, lo, hi, groups>>
Enable(b) == on' = b /\ UNCHANGED <<targets, written, lo, hi, groups, sel>>
\* ---- targets come and go
Add(ts) == /\ targets' = targets \cup ts /\ UNCHANGED <<on, written, lo, hi, groups, sel>>
\* what is waiting is delivered first
Remove(ts, d) ==
  /\ IF ts \cap targets = {} THEN d = <<>> /\ UNCHANGED <<lo, hi>>
     ELSE Only(d, Levels) /\ (\A l \in Levels : Drained(d, l)) /\ Empty(Levels)
  /\ targets' = targets \ ts
  /\ groups' = IF File \in ts THEN <<>> ELSE groups
  /\ UNCHANGED <<on, written, sel>>
\* ---- groups: shown to everybody who listens, in the file with their nesting
Plain == targets \ {File, Err}
GroupSeen(g, k, x, dep, named) ==
  /\ \A t \in Plain : SelectSeq(g, LAMBDA y : y[1] = t) = <<<<t, k, named, -1>>>>
  /\ SelectSeq(g, LAMBDA y : y[1] = File) = x
  /\ \A i \in 1..Len(g) : g[i][1] \in Plain \cup {File}
Begin(n, g) ==
  /\ IF File \in targets THEN GroupSeen(g, 1, <<<<File, 1, n, Len(groups)>>>>, 0, n) /\ groups' = Append(groups, n)
     ELSE GroupSeen(g, 1, <<>>, 0, n) /\ UNCHANGED groups
  /\ UNCHANGED <<targets, on, written, lo, hi, sel>>
End(g) ==
  /\ IF File \in targets /\ groups # <<>>
     THEN /\ GroupSeen(g, -1, <<<<File, -1, groups[Len(groups)], Len(groups) - 1>>>>, 0, 0)
          /\ groups' = SubSeq(groups, 1, Len(groups) - 1)
     ELSE GroupSeen(g, -1, <<>>, 0, 0) /\ UNCHANGED groups
  /\ UNCHANGED <<targets, on, written, lo, hi, sel>>
Init == /\ targets = {} /\ on = TRUE /\ sel = 3 /\ groups = <<>>
        /\ written = [s \in Streams |-> 0] /\ lo = written /\ hi = written
Sane == \A s \in Streams : 0 <= lo[s] /\ lo[s] <= hi[s] /\ hi[s] <= written[s]
=============================================================================
