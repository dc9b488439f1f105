------------------------------ MODULE TraceLog ------------------------------
EXTENDS Log, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
TNext == /\ i <= Len(Trace) /\ i' = i + 1
         /\ LET e == Trace[i] IN
            CASE e.e = "new" -> /\ targets' = {} /\ on' = TRUE /\ sel' = 3 /\ groups' = <<>>
                                /\ written' = [s \in Streams |-> 0] /\ lo' = written' /\ hi' = written'
              [] e.e = "write" -> Write(e.l, e.n, e.d) /\ e.g = <<>>
              [] e.e = "swrite" -> Write(Level, e.n, e.d) /\ e.g = <<>>
              [] e.e = "flush" -> Flush(e.l, e.d) /\ e.g = <<>>
              [] e.e = "sflush" -> Flush(Level, e.d) /\ e.g = <<>>
              [] e.e = "hand" -> Hand(e.l, e.n, e.d) /\ e.g = <<>>
              [] e.e = "select" -> Select(e.l) /\ e.d = <<>> /\ e.g = <<>>
              [] e.e = "enable" -> Enable(e.on) /\ e.d = <<>> /\ e.g = <<>>
              [] e.e = "add" -> Add({e.ts[k] : k \in 1..Len(e.ts)}) /\ e.d = <<>> /\ e.g = <<>>
              [] e.e = "remove" -> Remove({e.ts[k] : k \in 1..Len(e.ts)}, e.d) /\ e.g = <<>>
              [] e.e = "begin" -> Begin(e.n, e.g) /\ e.d = <<>>
              [] e.e = "end" -> End(e.g) /\ e.d = <<>>
              [] OTHER -> FALSE
TSpec == i = 1 /\ Init /\ [][TNext]_<<vars, i>>
Post == PrintT("VDIAM " \o ToString(TLCGet("stats").diameter) \o " " \o ToString(Len(Trace)))
=============================================================================
