----------------------------- MODULE FaultDesign -----------------------------
(* How a compressed stream and the thread that writes its blocks report failures (tpie/compressed/stream_base.cpp,
   thread.cpp, request.h): the stream fills a block, hands it to a queue and goes on; the thread takes requests in order and
   stores a failure in the stream's response, where the next operation that looks finds it.  Whoever looks raises the error
   once; the stream is closed then.  close() hands over the last block, waits for all requests, and marks the file as properly
   closed only if no write has failed.

   The values are the numbers of the blocks; file is what the disk holds. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxBlocks, MaxFaults, Sticky   \* Sticky: close() looks at failures that were raised before as well
VARIABLES state,    \* "open", "closing", "closed"
          next,     \* blocks filled so far
          dirty,    \* the buffer holds an unwritten block
          queue, file, faults,
          failed,   \* a write failed since the stream was opened
          unseen,   \* ... and nobody was told yet
          clean,    \* the file is marked as properly closed
          told      \* the user saw an error
vars == <<state, next, dirty, queue, file, faults, failed, unseen, clean, told>>
Init == state = "open" /\ next = 0 /\ dirty = FALSE /\ queue = <<>> /\ file = {} /\ faults = 0 /\ failed = FALSE /\ unseen = FALSE
        /\ clean = FALSE /\ told = FALSE
(* write(): the buffer is full, so it is handed over, unless an error is found. *)
Write ==
    /\ state = "open" /\ next < MaxBlocks
    /\ IF unseen
       THEN state' = "closing" /\ told' = TRUE /\ unseen' = FALSE /\ UNCHANGED <<next, dirty, queue>>
       ELSE /\ queue' = (IF dirty THEN Append(queue, next) ELSE queue) /\ next' = next + 1 /\ dirty' = TRUE
            /\ UNCHANGED <<state, told, unseen>>
    /\ UNCHANGED <<file, faults, failed, clean>>
Thread ==
    /\ queue # <<>> /\ queue' = Tail(queue)
    /\ \/ file' = file \cup {Head(queue)} /\ UNCHANGED <<faults, failed, unseen>>
       \/ faults < MaxFaults /\ faults' = faults + 1 /\ failed' = TRUE /\ unseen' = TRUE /\ UNCHANGED file
    /\ UNCHANGED <<state, next, dirty, clean, told>>
BeginClose ==
    /\ state = "open" /\ state' = "closing" /\ UNCHANGED <<next, dirty, queue, file, faults, failed, unseen, clean, told>>
Flush ==
    /\ state = "closing" /\ dirty /\ ~failed
    /\ queue' = Append(queue, next) /\ dirty' = FALSE /\ UNCHANGED <<state, next, file, faults, failed, unseen, clean, told>>
Finish ==
    /\ state = "closing" /\ queue = <<>> /\ (dirty => failed)
    /\ state' = "closed"
    /\ IF (IF Sticky THEN failed ELSE unseen)
       THEN clean' = FALSE /\ told' = (told \/ unseen) /\ unseen' = FALSE
       ELSE clean' = TRUE /\ UNCHANGED <<told, unseen>>
    /\ UNCHANGED <<next, dirty, queue, file, faults, failed>>
Next == Write \/ Thread \/ BeginClose \/ Flush \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Thread) /\ WF_vars(Finish) /\ WF_vars(Flush)
----------------------------------------------------------------------------
CleanIsWhole == clean => file = 1..next
FailuresAreTold == state = "closed" => (failed => told)
NoFalseAlarm == told => failed
Ends == (state = "closing") ~> (state = "closed")
=============================================================================
