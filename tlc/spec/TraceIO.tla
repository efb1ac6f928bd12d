------------------------------- MODULE TraceIO -------------------------------
(***************************************************************************)
(* Access to the trace recorded from the implementation.  The definitions  *)
(* are supplied by tlc2.module.TraceIO; a record is                        *)
(*   << operation, configuration, <<arguments>>, <<results>>, outcome,     *)
(*      <<parameters>> >>                                                  *)
(* where numbers are the raw bit patterns that went in and came out and    *)
(* outcome is "ok" or names how the call failed (PANIC, ABORT, HANG, ...). *)
(* Parameters are those of the operation, such as the width of its format. *)
(***************************************************************************)
EXTENDS Integers
NumRecs == CHOOSE n \in Nat : TRUE
ChunkSize == CHOOSE n \in Nat : TRUE
Rec(i) == CHOOSE r : TRUE
=============================================================================
