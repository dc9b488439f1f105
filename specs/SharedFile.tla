----------------------------- MODULE SharedFile -----------------------------
(* Several cursors over one sequence of items: tpie::file<T> with attached streams, and, with plain = TRUE, the one
   cursor of tpie::uncompressed_stream.  The file is kept between close and the next open. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT STREAMS   \* ids of the stream objects
WILD == -2         \* an item that exists because the file was made longer by truncate

VARIABLES mode, plain, items, cur, ud, udmax, named, exists, res
vars == <<mode, plain, items, cur, ud, udmax, named, exists, res>>
fv == <<mode, plain, ud, udmax, named, exists>>

Ok(r) == [x |-> "", r |-> r]
Fail(k) == [x |-> k, r |-> <<>>]
Min(a, b) == IF a < b THEN a ELSE b
NoCursor == [s \in STREAMS |-> -1]
First == CHOOSE s \in STREAMS : \A t \in STREAMS : s <= t

Fresh == IF plain' THEN [NoCursor EXCEPT ![First] = 0] ELSE NoCursor

Start(p, nm, udm) ==
    /\ mode' = "rw" /\ plain' = p /\ items' = <<>> /\ cur' = Fresh
    /\ ud' = <<>> /\ udmax' = udm /\ named' = nm /\ exists' = nm /\ res' = Ok(<<>>)

Open_ == mode # "closed"
Live(s) == Open_ /\ cur[s] >= 0
Readable(s) == Live(s) /\ mode \in {"rw", "ro"}
Writable(s) == Live(s) /\ mode \in {"rw", "wo"}
Move(s, o) == cur' = [cur EXCEPT ![s] = o]

Attach(s, o) ==
    /\ Open_ /\ ~plain
    /\ IF o > Len(items)
       THEN res' = Fail("io") /\ cur' = [cur EXCEPT ![s] = -1]
       ELSE res' = Ok(<<>>) /\ Move(s, o)
    /\ UNCHANGED <<items, fv>>
Detach(s) == ~plain /\ cur[s] >= 0 /\ cur' = [cur EXCEPT ![s] = -1] /\ res' = Ok(<<>>) /\ UNCHANGED <<items, fv>>

Read(s) ==
    /\ Readable(s)
    /\ IF cur[s] < Len(items) THEN res' = Ok(<<items[cur[s] + 1]>>) /\ Move(s, cur[s] + 1)
       ELSE res' = Fail("eos") /\ UNCHANGED cur
    /\ UNCHANGED <<items, fv>>
Peek(s) ==
    /\ Readable(s)
    /\ res' = IF cur[s] < Len(items) THEN Ok(<<items[cur[s] + 1]>>) ELSE Fail("eos")
    /\ UNCHANGED <<items, cur, fv>>
ReadBack(s) ==
    /\ Readable(s)
    /\ IF cur[s] > 0 THEN res' = Ok(<<items[cur[s]]>>) /\ Move(s, cur[s] - 1)
       ELSE res' = Fail("out") /\ UNCHANGED cur
    /\ UNCHANGED <<items, fv>>
Seek(s, t) ==
    /\ Live(s)
    /\ IF t >= 0 /\ t <= Len(items) THEN res' = Ok(<<>>) /\ Move(s, t) ELSE res' = Fail("out") /\ UNCHANGED cur
    /\ UNCHANGED <<items, fv>>
SeekFrom(s, n, w) == Seek(s, CASE w = "beg" -> n [] w = "end" -> Len(items) + n [] w = "cur" -> cur[s] + n)
Skip(s) == Seek(s, cur[s] + 1)
SkipBack(s) == Seek(s, cur[s] - 1)

(* A failing array read may have consumed any of the items that were there. *)
ReadArray(s, n) ==
    /\ Readable(s)
    /\ IF n <= Len(items) - cur[s]
       THEN res' = Ok(SubSeq(items, cur[s] + 1, cur[s] + n)) /\ Move(s, cur[s] + n)
       ELSE res' = Fail("eos") /\ \E k \in 0..(Len(items) - cur[s]) : Move(s, cur[s] + k)
    /\ UNCHANGED <<items, fv>>

Put(q, o, v) == IF o = Len(q) THEN Append(q, v) ELSE [q EXCEPT ![o + 1] = v]
RECURSIVE PutAll(_, _, _)
PutAll(q, o, vs) == IF vs = <<>> THEN q ELSE PutAll(Put(q, o, Head(vs)), o + 1, Tail(vs))
WriteArray(s, vs) ==
    /\ Writable(s)
    /\ items' = PutAll(items, cur[s], vs) /\ Move(s, cur[s] + Len(vs)) /\ res' = Ok(<<>>)
    /\ UNCHANGED fv

Resize(q, n) == [i \in 1..n |-> IF i <= Len(q) THEN q[i] ELSE WILD]
(* A file with attached streams may refuse to be truncated; a plain stream moves its cursor. *)
Truncate(n) ==
    /\ Open_ /\ mode # "ro" /\ n >= 0
    /\ \/ /\ plain \/ \A s \in STREAMS : cur[s] = -1
          /\ items' = Resize(items, n) /\ res' = Ok(<<>>)
          /\ cur' = [s \in STREAMS |-> IF cur[s] > n THEN n ELSE cur[s]]
       \/ /\ ~plain /\ \E s \in STREAMS : cur[s] >= 0
          /\ res' = Fail("io") /\ UNCHANGED <<items, cur>>
    /\ UNCHANGED fv

WriteUserData(d) ==
    /\ Open_ /\ mode # "ro"
    /\ IF Len(d) > udmax THEN res' = Fail("out") /\ UNCHANGED ud ELSE res' = Ok(<<>>) /\ ud' = d
    /\ UNCHANGED <<mode, plain, udmax, named, exists, items, cur>>
ReadUserData == Open_ /\ mode # "wo" /\ res' = Ok(ud) /\ UNCHANGED <<items, cur, fv>>

Close ==
    /\ Open_
    /\ (plain \/ \A s \in STREAMS : cur[s] = -1)
    /\ mode' = "closed" /\ cur' = NoCursor /\ exists' = named /\ res' = Ok(<<>>)
    /\ UNCHANGED <<items, plain, ud, udmax, named>>

Open(m, u) ==
    /\ mode = "closed"
    /\ UNCHANGED <<plain, named>>
    /\ IF exists /\ m # "wo"
       THEN /\ IF m = "rw" /\ u > udmax THEN res' = Fail("out") /\ UNCHANGED mode /\ cur' = NoCursor
               ELSE res' = Ok(<<>>) /\ mode' = m /\ cur' = Fresh
            /\ UNCHANGED <<items, ud, udmax, exists>>
       ELSE IF m = "ro"
       THEN res' = Fail("io") /\ UNCHANGED <<mode, items, ud, udmax, exists>> /\ cur' = NoCursor
       ELSE /\ res' = Ok(<<>>) /\ mode' = m /\ items' = <<>> /\ ud' = <<>> /\ udmax' = u /\ exists' = TRUE
            /\ cur' = Fresh

BadOpen == res' = Fail("refused") /\ UNCHANGED <<items, cur, fv>>
----------------------------------------------------------------------------
TypeOK == \A s \in STREAMS : cur[s] \in -1..Len(items)
\* one stream's write is at once what every other stream sees: there is only one sequence (by construction); no
\* operation but truncation and opening for writing only makes it shorter
NeverShrinks == [][Len(items') < Len(items) => (mode' = mode /\ mode # "ro") \/ mode = "closed"]_vars
FailureKeeps == [][res'.x # "" => items' = items]_vars
CursorsAlone == [][\A s, t \in STREAMS : s # t /\ cur'[s] # cur[s] /\ cur'[t] # cur[t] => mode' # mode \/ items' # items]_vars
=============================================================================
