----------------------------- MODULE FileStream -----------------------------
(* An item stream (tpie::file_stream, tpie::uncompressed_stream): a sequence of items with one cursor, saved
   positions and user data, kept in a file between a close and the next open.

   One action per public operation.  `res` is what the caller sees: the kind of exception ("" if none) and the
   returned values.  WILD stands for an item nobody wrote (an uncompressed stream made longer by truncate). *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT SLOTS

WILD == -2

VARIABLES
    mode,   \* "closed", "rw", "ro" or "wo"
    comp,   \* the stream is compressed: append only, no random seeks
    items,  \* the content
    off,    \* the cursor: number of items before it
    pos,    \* slot -> saved position; -1: none, or made invalid by a truncation
    ud,     \* user data
    udmax,  \* capacity for user data
    named,  \* the file outlives the stream object
    exists, \* there is a file to reopen
    res

vars == <<mode, comp, items, off, pos, ud, udmax, named, exists, res>>
filevars == <<comp, ud, udmax, named, exists, mode>>

Ok(r)    == [x |-> "", r |-> r]
Fail(k)  == [x |-> k, r |-> <<>>]
FailR(k, r) == [x |-> k, r |-> r]

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Start(c, nm, udm) ==
    /\ mode' = "rw" /\ comp' = c /\ items' = <<>> /\ off' = 0 /\ pos' = [s \in SLOTS |-> -1]
    /\ ud' = <<>> /\ udmax' = udm /\ named' = nm /\ exists' = nm /\ res' = Ok(<<>>)

Readable == mode \in {"rw", "ro"}
Writable == mode \in {"rw", "wo"}

----------------------------------------------------------------------------
(* Reading *)

Read ==
    /\ Readable
    /\ IF off < Len(items)
       THEN /\ res' = Ok(<<items[off + 1]>>) /\ off' = off + 1
       ELSE /\ res' = Fail("eos") /\ UNCHANGED off
    /\ UNCHANGED <<items, pos, filevars>>

Peek ==
    /\ Readable
    /\ res' = IF off < Len(items) THEN Ok(<<items[off + 1]>>) ELSE Fail("eos")
    /\ UNCHANGED <<items, off, pos, filevars>>

Skip ==
    /\ Readable
    /\ IF off < Len(items)
       THEN /\ res' = Ok(<<>>) /\ off' = off + 1
       ELSE /\ res' = Fail("eos") /\ UNCHANGED off
    /\ UNCHANGED <<items, pos, filevars>>

ReadBack ==
    /\ Readable
    /\ IF off > 0
       THEN /\ res' = Ok(<<items[off]>>) /\ off' = off - 1
       ELSE /\ res' = Fail("eos") /\ UNCHANGED off
    /\ UNCHANGED <<items, pos, filevars>>

SkipBack ==
    /\ Readable
    /\ IF off > 0
       THEN /\ res' = Ok(<<>>) /\ off' = off - 1
       ELSE /\ res' = Fail("eos") /\ UNCHANGED off
    /\ UNCHANGED <<items, pos, filevars>>

(* Reads min(n, size - offset) items; an exception if fewer than n. *)
ReadArray(n) ==
    /\ Readable
    /\ LET k == Min(n, Len(items) - off)
           r == SubSeq(items, off + 1, off + k)
       IN /\ res' = IF k = n THEN Ok(r) ELSE FailR("eos", r)
          /\ off' = off + k
    /\ UNCHANGED <<items, pos, filevars>>

----------------------------------------------------------------------------
(* Writing *)

Put(s, o, v) == IF o = Len(s) THEN Append(s, v) ELSE [s EXCEPT ![o + 1] = v]

Write(v) ==
    /\ Writable
    /\ IF comp /\ off # Len(items)
       THEN /\ res' = Fail("stream") /\ UNCHANGED <<items, off>>
       ELSE /\ res' = Ok(<<>>) /\ items' = Put(items, off, v) /\ off' = off + 1
    /\ UNCHANGED <<pos, filevars>>

RECURSIVE PutAll(_, _, _)
PutAll(s, o, vs) == IF vs = <<>> THEN s ELSE PutAll(Put(s, o, Head(vs)), o + 1, Tail(vs))

WriteArray(vs) ==
    /\ Writable
    /\ IF comp /\ off # Len(items) /\ vs # <<>>
       THEN /\ res' = Fail("stream") /\ UNCHANGED <<items, off>>
       ELSE /\ res' = Ok(<<>>) /\ items' = PutAll(items, off, vs) /\ off' = off + Len(vs)
    /\ UNCHANGED <<pos, filevars>>

----------------------------------------------------------------------------
(* Moving *)

SeekTarget(n, whence) ==
    CASE whence = "beg" -> n
      [] whence = "end" -> Len(items) + n
      [] whence = "cur" -> off + n

Seek(n, whence) ==
    /\ mode # "closed"
    /\ IF comp /\ n # 0
       THEN /\ res' = Fail("stream") /\ UNCHANGED off
       ELSE LET t == SeekTarget(n, whence)
            IN IF t >= 0 /\ t <= Len(items)
               THEN res' = Ok(<<>>) /\ off' = t
               ELSE res' = Fail("stream") /\ UNCHANGED off
    /\ UNCHANGED <<items, pos, filevars>>

GetPos(s) ==
    /\ mode # "closed"
    /\ pos' = [pos EXCEPT ![s] = off]
    /\ res' = Ok(<<off>>)
    /\ UNCHANGED <<items, off, filevars>>

SetPos(s) ==
    /\ mode # "closed" /\ pos[s] >= 0
    /\ IF pos[s] <= Len(items)
       THEN res' = Ok(<<>>) /\ off' = pos[s]
       ELSE res' = Fail("stream") /\ UNCHANGED off
    /\ UNCHANGED <<items, pos, filevars>>

SetPosEnd ==
    /\ mode # "closed"
    /\ off' = Len(items) /\ res' = Ok(<<>>)
    /\ UNCHANGED <<items, pos, filevars>>

----------------------------------------------------------------------------
(* Truncation *)

Resize(s, n) == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE WILD]

(* Positions behind the cut stay mere offsets in an uncompressed stream and are void in a compressed one. *)
Cut(n) ==
    /\ items' = Resize(items, n)
    /\ off' = Min(off, n)
    /\ pos' = [s \in SLOTS |-> IF comp /\ pos[s] > n THEN -1 ELSE pos[s]]

Truncate(n) ==
    /\ Writable /\ n >= 0
    /\ IF comp /\ n # 0 /\ n # Len(items)
       THEN res' = Fail("stream") /\ UNCHANGED <<items, off, pos>>
       ELSE res' = Ok(<<>>) /\ Cut(n)
    /\ UNCHANGED filevars

TruncatePos(s) ==
    /\ Writable /\ pos[s] >= 0
    /\ pos[s] <= Len(items) \/ ~comp
    /\ res' = Ok(<<>>) /\ Cut(pos[s])
    /\ UNCHANGED filevars

----------------------------------------------------------------------------
(* User data *)

WriteUserData(d) ==
    /\ Writable
    /\ IF Len(d) > udmax
       THEN res' = Fail("stream") /\ UNCHANGED ud
       ELSE res' = Ok(<<>>) /\ ud' = d
    /\ UNCHANGED <<items, off, pos, comp, udmax, named, exists, mode>>

ReadUserData ==
    /\ Readable
    /\ res' = Ok(ud)
    /\ UNCHANGED <<items, off, pos, filevars>>

----------------------------------------------------------------------------
(* Closing and opening again *)

Close ==
    /\ mode # "closed"
    /\ mode' = "closed" /\ off' = 0 /\ res' = Ok(<<>>)
    /\ exists' = named
    /\ UNCHANGED <<items, pos, comp, ud, udmax, named>>

(* u: the capacity for user data asked for; c: compression asked for, which counts for a new file only. *)
Open(m, u, c) ==
    /\ mode = "closed"
    /\ IF exists /\ m # "wo"
       THEN /\ IF m = "rw" /\ u > udmax
               THEN res' = Fail("invalid") /\ UNCHANGED mode
               ELSE res' = Ok(<<>>) /\ mode' = m
            /\ UNCHANGED <<items, pos, comp, ud, udmax, named, exists>>
       ELSE IF m = "ro"
       THEN /\ res' = Fail("io")
            /\ UNCHANGED <<items, pos, comp, ud, udmax, named, exists, mode>>
       ELSE /\ res' = Ok(<<>>) /\ mode' = m /\ items' = <<>> /\ comp' = c /\ ud' = <<>> /\ udmax' = u
            /\ pos' = [s \in SLOTS |-> -1] /\ exists' = TRUE
            /\ UNCHANGED named
    /\ off' = 0

(* Opening with a wrong item size, or a damaged copy of the file, is refused and changes nothing. *)
BadOpen ==
    /\ res' = Fail("refused")
    /\ UNCHANGED <<items, off, pos, filevars>>

(* Another process reads the closed file. *)
OtherProcessReads ==
    /\ mode = "closed" /\ exists
    /\ res' = Ok(items)
    /\ UNCHANGED <<items, off, pos, filevars>>

----------------------------------------------------------------------------
TypeOK ==
    /\ mode \in {"closed", "rw", "ro", "wo"} /\ comp \in BOOLEAN /\ named \in BOOLEAN /\ exists \in BOOLEAN
    /\ off \in 0..Len(items)
    /\ Len(ud) <= udmax

(* What the property says about every step, as action properties of the design. *)
ReadOnlyKeeps == [][mode = "ro" => items' = items /\ ud' = ud]_vars
FailureKeeps  == [][res'.x # "" => items' = items]_vars
AppendOnly    == [][comp /\ mode # "closed" /\ mode' # "closed" /\ Len(items') >= Len(items)
                      => SubSeq(items', 1, Len(items)) = items]_vars
ReopenKeeps   == [][mode = "closed" /\ mode' \in {"rw", "ro"} /\ exists => items' = items /\ ud' = ud]_vars
=============================================================================
