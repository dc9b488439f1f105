----------------------------- MODULE Resources -----------------------------
(* The accounting of memory and of open files, and what a limit does.
   live: function from the live allocations to [n |-> bytes, b |-> bucket]; files: the open files. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES live, files, limit, mode, flimit, fmode
vars == <<live, files, limit, mode, flimit, fmode>>
Modes == {"ignore", "debug", "warn", "throw"}
RECURSIVE Total(_)
Total(f) == IF DOMAIN f = {} THEN 0 ELSE LET x == CHOOSE x \in DOMAIN f : TRUE IN f[x].n + Total([y \in DOMAIN f \ {x} |-> f[y]])
InBucket(f, b) == Total([x \in {y \in DOMAIN f : f[y].b = b} |-> f[x]])
Used == Total(live)
Without(f, h) == [x \in DOMAIN f \ {h} |-> f[x]]
With(f, h, n, b) == [x \in DOMAIN f \cup {h} |-> IF x = h THEN [n |-> n, b |-> b] ELSE f[x]]
Exceeds(use, n, lim, m) == m = "throw" /\ lim > 0 /\ use + n > lim
\* nothing asked for (n = 0) is granted even when the use is above the limit already
\* an allocation: refused when the limit is enforced and would be exceeded, otherwise made
Request(h, n, b) == (n = 0 \/ ~Exceeds(Used, n, limit, mode)) /\ h \notin DOMAIN live /\ live' = With(live, h, n, b)
                    /\ UNCHANGED <<files, limit, mode, flimit, fmode>>
Refused(n) == Exceeds(Used, n, limit, mode) /\ UNCHANGED vars
\* an allocation that failed for a reason of its own
Failed(n) == ~Exceeds(Used, n, limit, mode) /\ UNCHANGED vars
Free(h) == h \in DOMAIN live /\ live' = Without(live, h) /\ UNCHANGED <<files, limit, mode, flimit, fmode>>
\* an array whose size changes gives up its memory first
Resize(h, n, b) == h \in DOMAIN live /\ (n = 0 \/ ~Exceeds(Used - live[h].n, n, limit, mode)) /\ live' = With(live, h, n, b) /\ UNCHANGED <<files, limit, mode, flimit, fmode>>
ResizeRefused(h, n, b) == h \in DOMAIN live /\ Exceeds(Used - live[h].n, n, limit, mode) /\ live' = With(live, h, 0, b) /\ UNCHANGED <<files, limit, mode, flimit, fmode>>
ResizeFailed(h, n, b) == h \in DOMAIN live /\ ~Exceeds(Used - live[h].n, n, limit, mode) /\ live' = With(live, h, 0, b) /\ UNCHANGED <<files, limit, mode, flimit, fmode>>
SetLimit(n) == limit' = n /\ UNCHANGED <<live, files, mode, flimit, fmode>>
SetMode(m) == mode' = m /\ UNCHANGED <<live, files, limit, flimit, fmode>>
OpenFile(h) == ~Exceeds(Cardinality(files), 1, flimit, fmode) /\ h \notin files /\ files' = files \cup {h} /\ UNCHANGED <<live, limit, mode, flimit, fmode>>
OpenRefused == Exceeds(Cardinality(files), 1, flimit, fmode) /\ UNCHANGED vars
OpenFailed == ~Exceeds(Cardinality(files), 1, flimit, fmode) /\ UNCHANGED vars
CloseFile(h) == h \in files /\ files' = files \ {h} /\ UNCHANGED <<live, limit, mode, flimit, fmode>>
SetFLimit(n) == flimit' = n /\ UNCHANGED <<live, files, limit, mode, fmode>>
SetFMode(m) == fmode' = m /\ UNCHANGED <<live, files, limit, mode, flimit>>
Available(use, lim) == IF use < lim THEN lim - use ELSE 0
=============================================================================
