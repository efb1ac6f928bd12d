------------------------------- MODULE Replay -------------------------------
(***************************************************************************)
(* Trace validation of recorded calls.  The trace is cut into chunks; each *)
(* chunk is one behaviour: from its initial state a single step consumes   *)
(* all records of the chunk and collects those the specification does not  *)
(* allow.  A call that panicked, aborted, hung or touched memory it may    *)
(* not touch is recorded as such and is allowed by no specification.       *)
(* The post-condition makes sure that every chunk was consumed.            *)
(***************************************************************************)
EXTENDS TraceIO, FiniteSets, TLC

CONSTANT Conforms(_)        \* r = <<op, config, args, results, outcome>>

VARIABLES chunk, done, bad
vars == <<chunk, done, bad>>

NumChunks == (NumRecs + ChunkSize - 1) \div ChunkSize
Range(c) == LET last == (c + 1) * ChunkSize
            IN (c * ChunkSize + 1) .. (IF last <= NumRecs THEN last ELSE NumRecs)

RecordOk(r) == r[5] = "ok" /\ Conforms(r)

Init == /\ chunk \in 0..(NumChunks - 1)
        /\ done = FALSE
        /\ bad = {}
Next == /\ ~done
        /\ done' = TRUE
        /\ bad' = {i \in Range(chunk) : ~RecordOk(Rec(i))}
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_vars

Conformance == bad = {}
AllConsumed == TLCGet("stats").distinct = 2 * NumChunks
=============================================================================
