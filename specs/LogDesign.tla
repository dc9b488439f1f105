------------------------------ MODULE LogDesign ------------------------------
(* The library's log streams: a buffer of Cap characters per level, emptied when it is full, when it is flushed while there
   is a target, and before a target is removed. Every step must be one Log accepts (ok), and nothing may reach a target twice
   or out of order. *)
EXTENDS Log, TLC
CONSTANTS Cap, Custom, Max
VARIABLES buf, got, ok
dvars == <<vars, buf, got, ok>>
All == Custom \cup {File, Err}
\* the chunk in a buffer, as handed to everybody
Chunk(b, l) == IF b = <<>> \/ ~on THEN <<>>
               ELSE LET rs == {t \in Receivers : Passes(t, l)} IN
                    LET F[S \in SUBSET rs] == IF S = {} THEN <<>> ELSE LET t == CHOOSE x \in S : TRUE IN
                        <<<<t, l, l, b[1], Len(b), Depth(t, l)>>>> \o F[S \ {t}] IN F[rs]
\* got: how far each target has come in each stream; -1 once it was given something twice or out of order
RECURSIVE Take(_, _)
Take(g, d) == IF d = <<>> THEN g
              ELSE LET x == d[1] IN Take([g EXCEPT ![x[1]][x[2]] = IF @ = -1 \/ x[4] < @ THEN -1 ELSE x[4] + x[5]], Tail(d))
Note(d) == got' = Take(got, d)
RECURSIVE Cat(_, _)
Cat(S, f) == IF S = {} THEN <<>> ELSE LET l == CHOOSE x \in S : TRUE IN f[l] \o Cat(S \ {l}, f)
Put(l) == LET full == Len(buf[l]) = Cap IN
          LET d == IF full THEN Chunk(buf[l], l) ELSE <<>> IN
          /\ written[l] < Max
          /\ buf' = [buf EXCEPT ![l] = IF full THEN <<written[l]>> ELSE Append(@, written[l])]
          /\ Note(d)
          /\ IF ENABLED Write(l, 1, d) THEN ok' = ok /\ Write(l, 1, d) ELSE ok' = FALSE /\ UNCHANGED vars
Sync(l) == LET d == IF targets = {} THEN <<>> ELSE Chunk(buf[l], l) IN
           /\ buf' = IF targets = {} THEN buf ELSE [buf EXCEPT ![l] = <<>>]
           /\ Note(d)
           /\ IF ENABLED Flush(l, d) THEN ok' = ok /\ Flush(l, d) ELSE ok' = FALSE /\ UNCHANGED vars
Join(t) == t \notin targets /\ Add({t}) /\ UNCHANGED <<buf, got, ok>>
Leave(t) == LET d == IF t \in targets THEN Cat(Levels, [l \in Levels |-> Chunk(buf[l], l)]) ELSE <<>> IN
            /\ buf' = IF t \in targets THEN [l \in Levels |-> <<>>] ELSE buf
            /\ Note(d)
            /\ IF ENABLED Remove({t}, d) THEN ok' = ok /\ Remove({t}, d) ELSE ok' = FALSE /\ UNCHANGED vars
Switch == Enable(~on) /\ UNCHANGED <<buf, got, ok>>
DInit == Init /\ buf = [l \in Levels |-> <<>>] /\ got = [t \in All |-> [l \in Levels |-> 0]] /\ ok = TRUE
DNext == \/ \E l \in Levels : Put(l) \/ Sync(l)
         \/ \E t \in All : Join(t) \/ Leave(t)
         \/ Switch
DSpec == DInit /\ [][DNext]_dvars
Accepted == ok
Bounds == Sane /\ \A l \in Levels : LET h == IF buf[l] = <<>> THEN written[l] ELSE buf[l][1] IN lo[l] <= h /\ h <= hi[l]
InOrder == \A t \in All, l \in Levels : got[t][l] >= 0
=============================================================================
