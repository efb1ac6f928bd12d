------------------------------ MODULE Execute ------------------------------
(***************************************************************************)
(* Runs of machine code.  Every record names a routine, the values it is   *)
(* called with and its machine words; the specification of the processor   *)
(* executes it.  Outcome(r) is "ok", "unknown" when the routine contains   *)
(* an instruction the specification does not know, or says what went       *)
(* wrong.  Unknown ones are collected with a negative number.              *)
(***************************************************************************)
EXTENDS TraceIO, FiniteSets, TLC

CONSTANT Outcome(_)

VARIABLES chunk, done, bad
vars == <<chunk, done, bad>>

NumChunks == (NumRecs + ChunkSize - 1) \div ChunkSize
Range(c) == LET last == (c + 1) * ChunkSize
            IN (c * ChunkSize + 1) .. (IF last <= NumRecs THEN last ELSE NumRecs)
Verdict(i) == LET o == Outcome(Rec(i)) IN IF o = "ok" THEN 0 ELSE IF o = "unknown" THEN -i ELSE i

Init == /\ chunk \in 0..(NumChunks - 1)
        /\ done = FALSE
        /\ bad = {}
Next == /\ ~done
        /\ done' = TRUE
        /\ bad' = {Verdict(i) : i \in Range(chunk)} \ {0}
        /\ UNCHANGED chunk
Spec == Init /\ [][Next]_vars

Conformance == bad = {}
AllConsumed == TLCGet("stats").distinct = 2 * NumChunks
=============================================================================
