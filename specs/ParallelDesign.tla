---------------------------- MODULE ParallelDesign ----------------------------
(* The algorithm of tpie/pipelining/parallel/base.h: the main thread (producer and consumer nodes) and the worker threads
   share one mutex; the states of the workers say whose turn it is. One step is what a thread does while it holds the
   mutex. Items 1..N are pushed one by one; item x makes F(x) output items. One chosen callback throws. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, W, Buf, Order,
          Throw,      \* <<"none">>, <<"begin", k>>: begin of the node after k workers started, <<"src", i>>: before item i,
                      \* <<"work", x>>: while handling item x, <<"sink", n>>: at the n-th item out
          OldStop     \* TRUE: the producer does not wait for started workers when it stops them (the repaired defect)
Wk == 1..W
F(x) == CASE x % 3 = 0 -> <<>> [] x % 3 = 1 -> <<10 * x>> [] OTHER -> <<10 * x, 10 * x + 1, 10 * x + 2>>
VARIABLES ms,      \* main thread: where it is
          started, \* number of worker threads started
          ws,      \* worker: "init", "idle", "proc", "part", "out", "done" (the state under the mutex)
          wpc,     \* worker thread: "none", "start", "wait", "busy", "flush", "gone"
          wake,    \* set of threads (0 main, workers) that are notified and not waiting any more
          inb, outb, todo, \* per worker: input buffer, output buffer, outputs still to be pushed for the current item and later
          buf, next,       \* main: input being collected, next item of the source
          order,   \* queue of workers whose output comes next
          got,     \* what the sink got
          running, eptr, mutexHeld
vars == <<ms, started, ws, wpc, wake, inb, outb, todo, buf, next, order, got, running, eptr, mutexHeld>>
Init == /\ ms = "begin" /\ started = 0 /\ ws = [w \in Wk |-> "init"] /\ wpc = [w \in Wk |-> "none"] /\ wake = {0}
        /\ inb = [w \in Wk |-> <<>>] /\ outb = [w \in Wk |-> <<>>] /\ todo = [w \in Wk |-> <<>>]
        /\ buf = <<>> /\ next = 1 /\ order = <<>> /\ got = <<>> /\ running = 0 /\ eptr = FALSE /\ mutexHeld = FALSE
Awake(t) == t \in wake
Starting == Cardinality({w \in Wk : wpc[w] = "start"})
\* ---- main thread
BeginStep == /\ ms = "begin"
             /\ IF Throw = <<"begin", started>> THEN ms' = "stop" /\ UNCHANGED <<started, wpc, wake>>
                ELSE IF started < W THEN started' = started + 1 /\ wpc' = [wpc EXCEPT ![started + 1] = "start"] /\ wake' = wake \cup {started + 1} /\ UNCHANGED ms
                ELSE ms' = "pbegin" /\ UNCHANGED <<started, wpc, wake>>
             /\ UNCHANGED <<ws, inb, outb, todo, buf, next, order, got, running, eptr, mutexHeld>>
PBegin == /\ ms = "pbegin" /\ Awake(0)
          /\ IF Starting > 0 THEN wake' = wake \ {0} /\ UNCHANGED ms ELSE ms' = (IF eptr THEN "stop" ELSE "go") /\ UNCHANGED wake
          /\ UNCHANGED <<started, ws, wpc, inb, outb, todo, buf, next, order, got, running, eptr, mutexHeld>>
Go == /\ ms = "go"
      /\ IF Throw = <<"src", next>> THEN ms' = "stop" /\ UNCHANGED <<buf, next>>
         ELSE IF next > N THEN ms' = "end" /\ UNCHANGED <<buf, next>>
         ELSE /\ buf' = Append(buf, next) /\ next' = next + 1 /\ ms' = IF Len(buf) + 1 = Buf THEN "send" ELSE "go"
      /\ UNCHANGED <<started, ws, wpc, wake, inb, outb, todo, order, got, running, eptr, mutexHeld>>
OutReady(w, ord) == ws[w] \in {"part", "out"} /\ (ord => order # <<>> /\ Head(order) = w)
Ready(w) == ws[w] = "idle" \/ OutReady(w, Order)
First(P(_)) == CHOOSE w \in Wk : P(w) /\ \A v \in 1..(w - 1) : ~P(v)
\* Pushing one buffer of output down the pipe: the sink may throw.
Consume(w, back) ==
  LET o == outb[w] IN
  LET bad == Throw[1] = "sink" /\ Throw[2] > Len(got) /\ Throw[2] <= Len(got) + Len(o) IN
  IF bad THEN /\ got' = got \o SubSeq(o, 1, Throw[2] - Len(got)) /\ ms' = "stop" /\ UNCHANGED <<ws, wake, order>>
  ELSE /\ got' = got \o o /\ ms' = back
       /\ ws' = [ws EXCEPT ![w] = IF @ = "part" THEN "proc" ELSE "idle"]
       /\ wake' = wake \cup {w}
       /\ order' = IF Order /\ ws[w] = "out" THEN Tail(order) ELSE order
\* empty_input_buffer, in push (back = "go") and in end ("drain")
Send(at, back) ==
  /\ ms = at /\ Awake(0)
  /\ IF buf = <<>> THEN ms' = back /\ UNCHANGED <<wake, buf, ws, inb, order, got, outb>>
     ELSE IF eptr THEN ms' = "stop" /\ UNCHANGED <<wake, buf, ws, inb, order, got, outb>>
     ELSE IF ~\E w \in Wk : Ready(w) THEN wake' = wake \ {0} /\ UNCHANGED <<ms, buf, ws, inb, order, got, outb>>
     ELSE LET w == First(Ready) IN
          IF ws[w] = "idle" THEN /\ inb' = [inb EXCEPT ![w] = buf] /\ buf' = <<>> /\ ws' = [ws EXCEPT ![w] = "proc"] /\ wake' = wake \cup {w}
                                 /\ order' = (IF Order THEN Append(order, w) ELSE order) /\ UNCHANGED <<ms, got, outb>>
          ELSE Consume(w, at) /\ UNCHANGED <<buf, inb, outb>>
  /\ UNCHANGED <<started, wpc, todo, next, running, eptr, mutexHeld>>
Push == Send("send", "go")
EndSend == Send("end", "drain")
Drain == /\ ms = "drain" /\ Awake(0)
         /\ IF eptr THEN ms' = "stop" /\ UNCHANGED <<wake, ws, order, got, outb>>
            ELSE IF \E w \in Wk : OutReady(w, Order) THEN LET Q(w) == OutReady(w, Order) IN Consume(First(Q), "drain") /\ UNCHANGED outb
            ELSE IF \E w \in Wk : ws[w] = "proc" THEN wake' = wake \ {0} /\ UNCHANGED <<ms, ws, order, got, outb>>
            ELSE ms' = "finish" /\ ws' = [w \in Wk |-> "done"] /\ wake' = wake \cup Wk /\ UNCHANGED <<order, got, outb>>
         /\ UNCHANGED <<started, wpc, inb, todo, buf, next, running, eptr, mutexHeld>>
Finish == /\ ms = "finish" /\ Awake(0)
          /\ IF eptr THEN ms' = "stop" /\ UNCHANGED wake ELSE IF running > 0 THEN wake' = wake \ {0} /\ UNCHANGED ms ELSE ms' = "ended" /\ UNCHANGED wake
          /\ UNCHANGED <<started, ws, wpc, inb, outb, todo, buf, next, order, got, running, eptr, mutexHeld>>
\* stop_workers, when an exception is on its way or from the destructor
Stop == /\ ms \in {"stop", "stopped"} /\ Awake(0)
        /\ IF ~OldStop /\ Starting > 0 THEN wake' = wake \ {0} /\ UNCHANGED <<ms, ws>>
           ELSE IF running = 0 THEN ms' = "destroy" /\ UNCHANGED <<wake, ws>>
           ELSE IF ms = "stopped" THEN wake' = wake \ {0} /\ UNCHANGED <<ms, ws>>
           ELSE IF \E w \in Wk : ws[w] \in {"part", "out"}
                THEN LET Q(w) == ws[w] \in {"part", "out"} IN LET w == First(Q) IN
                     ws' = [ws EXCEPT ![w] = IF @ = "part" THEN "proc" ELSE "idle"] /\ wake' = (IF ws[w] = "part" THEN wake \cup {w} ELSE wake) /\ UNCHANGED ms
           ELSE IF \E w \in Wk : ws[w] = "proc" THEN wake' = wake \ {0} /\ UNCHANGED <<ms, ws>>
           ELSE ms' = "stopped" /\ ws' = [w \in Wk |-> "done"] /\ wake' = wake \cup Wk
        /\ UNCHANGED <<started, wpc, inb, outb, todo, buf, next, order, got, running, eptr, mutexHeld>>
\* ~before: joins the threads, holding the mutex
Destroy == /\ ms = "destroy" /\ mutexHeld' = TRUE
           /\ \A w \in Wk : wpc[w] \in {"none", "gone"}
           /\ ms' = "gone" /\ UNCHANGED <<started, ws, wpc, wake, inb, outb, todo, buf, next, order, got, running, eptr>>
DestroyLock == /\ ms = "destroy" /\ ~mutexHeld /\ mutexHeld' = TRUE
               /\ UNCHANGED <<ms, started, ws, wpc, wake, inb, outb, todo, buf, next, order, got, running, eptr>>
\* ---- worker threads
Lock == ~mutexHeld
WStart(w) == /\ wpc[w] = "start" /\ Lock /\ Assert(ws[w] = "init", "worker starts in another state")
             /\ ws' = [ws EXCEPT ![w] = "idle"] /\ wpc' = [wpc EXCEPT ![w] = "wait"] /\ running' = running + 1 /\ wake' = wake \cup {0}
             /\ UNCHANGED <<ms, started, inb, outb, todo, buf, next, order, got, eptr, mutexHeld>>
RECURSIVE All(_)
All(q) == IF q = <<>> THEN <<>> ELSE F(Head(q)) \o All(Tail(q))
WWait(w) == /\ wpc[w] = "wait" /\ Awake(w) /\ Lock
            /\ IF ws[w] = "proc" THEN /\ wpc' = [wpc EXCEPT ![w] = "busy"] /\ todo' = [todo EXCEPT ![w] = All(inb[w])] /\ UNCHANGED <<wake, running>>
               ELSE IF ws[w] = "done" THEN wpc' = [wpc EXCEPT ![w] = "gone"] /\ running' = running - 1 /\ wake' = wake \cup {0} /\ UNCHANGED todo
               ELSE wake' = wake \ {w} /\ UNCHANGED <<wpc, todo, running>>
            /\ UNCHANGED <<ms, started, ws, inb, outb, buf, next, order, got, eptr, mutexHeld>>
\* Pushes up to Buf items into the output buffer, then hands it over; throws when the buffer holds the bad item.
WBusy(w) == /\ wpc[w] = "busy" /\ Lock
            /\ IF Throw[1] = "work" /\ Throw[2] \in {inb[w][i] : i \in 1..Len(inb[w])}
               THEN /\ ws' = [ws EXCEPT ![w] = "idle"] /\ wpc' = [wpc EXCEPT ![w] = "wait"] /\ eptr' = TRUE /\ wake' = wake \cup {0}
                    /\ Assert(ws[w] = "proc", "throwing worker in another state") /\ UNCHANGED <<outb, todo>>
               ELSE LET k == IF Len(todo[w]) > Buf THEN Buf ELSE Len(todo[w]) IN
                    /\ Assert(ws[w] = "proc", "flush in another state")
                    /\ outb' = [outb EXCEPT ![w] = SubSeq(todo[w], 1, k)]
                    /\ todo' = [todo EXCEPT ![w] = SubSeq(todo[w], k + 1, Len(todo[w]))]
                    /\ ws' = [ws EXCEPT ![w] = IF Len(todo[w]) > Buf THEN "part" ELSE "out"]
                    /\ wpc' = [wpc EXCEPT ![w] = "flush"] /\ wake' = wake \cup {0} /\ UNCHANGED eptr
            /\ UNCHANGED <<ms, started, inb, buf, next, order, got, running, mutexHeld>>
\* Waits until main has taken the output. Main may have moved on from idle to processing by then.
WFlush(w) == /\ wpc[w] = "flush" /\ Awake(w) /\ Lock
             /\ IF ws[w] \in {"part", "out"} THEN wake' = wake \ {w} /\ UNCHANGED <<wpc, outb, running>>
                ELSE /\ outb' = [outb EXCEPT ![w] = <<>>]
                     /\ wpc' = [wpc EXCEPT ![w] = IF todo[w] # <<>> THEN "busy" ELSE "wait"] /\ UNCHANGED <<wake, running>>
             /\ UNCHANGED <<ms, started, ws, inb, todo, buf, next, order, got, eptr, mutexHeld>>
Main == BeginStep \/ PBegin \/ Go \/ Push \/ EndSend \/ Drain \/ Finish \/ Stop \/ Destroy \/ DestroyLock
Worker(w) == WStart(w) \/ WWait(w) \/ WBusy(w) \/ WFlush(w)
After == ms = "ended" /\ ms' = "stop" /\ UNCHANGED <<started, ws, wpc, wake, inb, outb, todo, buf, next, order, got, running, eptr, mutexHeld>>
Terminated == ms = "gone"
Next == Main \/ After \/ (\E w \in Wk : Worker(w)) \/ (Terminated /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main \/ After) /\ \A w \in Wk : WF_vars(Worker(w))
\* ---- what the section promises
Src == [i \in 1..N |-> i]
Expected == All(Src)
Range(s) == {s[i] : i \in 1..Len(s)}
NoDuplicates == Cardinality(Range(got)) = Len(got)
NothingInvented == Range(got) \subseteq Range(Expected)
KeepsOrder == Order => \A i \in 1..Len(got) : got[i] = Expected[i]
CompleteAtEnd == ms = "ended" => Range(got) = Range(Expected) /\ ~eptr
FailsWhenThrown == (ms = "ended") => Throw[1] = "none"
       \/ (Throw[1] = "sink" /\ Throw[2] > Len(Expected)) \/ (Throw[1] = "src" /\ Throw[2] > N + 1)
DestroysDone == ms = "destroy" => \A w \in Wk : ws[w] \in {"init", "done"}
Terminates == <>Terminated
NoneT == <<"none", 0>>
BeginT == <<"begin", 1>>
SrcT == <<"src", 4>>
WorkT == <<"work", 3>>
SinkT == <<"sink", 4>>
=============================================================================
