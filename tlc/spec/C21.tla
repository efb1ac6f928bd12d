-------------------------------- MODULE C21 --------------------------------
(***************************************************************************)
(* Calls of the stack probe routines on a stack of untouched pages.        *)
(* Record: probe:bits kind off size > delta changed kept n page^n          *)
(*   delta    how far the stack pointer is lower after the return          *)
(*   changed  bit set of general registers with another value than before  *)
(*   kept     1 when the caller's frame was left alone                     *)
(***************************************************************************)
EXTENDS Replay, Integers, Sequences
P == INSTANCE Probe WITH Page <- 4096

R11 == 2048
Granted(bits) == 8 * (bits \div 8)             \* eight words
ConformsC21(r) ==
  LET bits == r[6][1]
      off == r[3][1]
      size == r[3][2]
      pages == SubSeq(r[4], 5, Len(r[4]))
  IN /\ Len(r[4]) >= 4
     /\ Len(pages) = r[4][4]
     /\ P!Probes(pages, off, size)
     /\ P!Stays(pages, off, size, Granted(bits))
     /\ r[4][1] = IF r[2] \in {"uefi", "alloca", "chkstk"} THEN size ELSE 0
     /\ r[4][2] \in (IF bits = 64 /\ r[2] # "chkstk_ms" THEN {0, R11} ELSE {0})
     /\ r[4][3] = 1
=============================================================================
