------------------------------- MODULE Probe -------------------------------
(***************************************************************************)
(* Stack probes.  Before a function takes a frame of `size' bytes below    *)
(* its stack pointer, the probe touches the pages of that frame so that a  *)
(* guard page anywhere in it is hit before anything beyond the guard page  *)
(* is.  Pages are numbered downwards from the page of the stack pointer,   *)
(* page 0, which the caller already uses; `off' is the stack pointer's     *)
(* offset in it.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Page

\* page of the byte d below the stack pointer
PageOf(off, d) == IF d <= off THEN 0 ELSE (d - off + Page - 1) \div Page

\* the pages first touched, in this order
FirstAtOrBelow(seq, g, k) ==
  /\ seq[k] = g
  /\ \A j \in 1 .. k - 1 : seq[j] < g
Guarded(seq, g) == \E k \in 1 .. Len(seq) : FirstAtOrBelow(seq, g, k)

\* with a guard page at any page of the frame, the first access beyond the used pages is in the guard page
Probes(seq, off, size) == \A g \in 1 .. PageOf(off, size) : Guarded(seq, g)
\* nothing else is touched; the routine's own few words and a word below the frame are granted
Stays(seq, off, size, words) == \A k \in 1 .. Len(seq) : seq[k] <= PageOf(off, size + words)
=============================================================================
