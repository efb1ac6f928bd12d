------------------------------ MODULE MC_Probe ------------------------------
(***************************************************************************)
(* The probing loop on a small machine: a page has Page words; the routine *)
(* pushes Pushed words, goes down page by page and then by the rest, and   *)
(* touches one word at each stop.  A guard page lies anywhere.  Checked    *)
(* for all stack offsets and sizes: an access at or below the guard page   *)
(* is in the guard page first; the conditions of Probe accept exactly the  *)
(* loop's touches.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Page, Pushed, MaxSize, Pages
P == INSTANCE Probe

VARIABLES off, size, guard, pc, low, rest, seq, hit
vars == <<off, size, guard, pc, low, rest, seq, hit>>

\* an access d below the stack pointer: new pages are appended; the guard page ends the program
Touch(s, d) == LET p == P!PageOf(off, d) IN IF p = 0 \/ \E k \in 1 .. Len(s) : s[k] = p THEN s ELSE Append(s, p)
Hits(d) == P!PageOf(off, d)

Init == /\ off \in 0 .. Page - 1
        /\ size = 0 /\ guard \in 1 .. Pages /\ pc = "choose" /\ low = 0 /\ rest = 0 /\ seq = <<>> /\ hit = 0
Choose == /\ pc = "choose"
          /\ size' \in 0 .. MaxSize
          /\ pc' = "push"
          /\ UNCHANGED <<off, guard, low, rest, seq, hit>>
Access(d, next, lo, rs) ==
  LET p == Hits(d) IN
  /\ seq' = Touch(seq, d)
  /\ IF p >= guard THEN hit' = p /\ pc' = "fault" ELSE hit' = hit /\ pc' = next
  /\ low' = lo /\ rest' = rs
  /\ UNCHANGED <<off, size, guard>>
\* pushes touch one word each, here word number low + 1 below the stack pointer
Push == /\ pc = "push"
        /\ IF low < Pushed THEN Access(low + 1, "push", low + 1, size)
           ELSE /\ pc' = IF size > Page THEN "page" ELSE "last"
                /\ rest' = size /\ low' = 0
                /\ UNCHANGED <<off, size, guard, seq, hit>>
\* the word touched is the one just below the part of the frame reached
PageStep == /\ pc = "page"
            /\ Access(low + Page + 1, IF rest - Page > Page THEN "page" ELSE "last", low + Page, rest - Page)
LastStep == /\ pc = "last"
            /\ Access(low + rest + 1, "done", low + rest, 0)
Next == Choose \/ Push \/ PageStep \/ LastStep

TypeOK == /\ low <= size + Pushed /\ Len(seq) <= Pages + 2
\* the guard page cannot be jumped over
GuardHit == pc = "fault" => hit = guard
\* a frame that was probed to the end does not contain the guard page
Complete == pc = "done" => /\ P!PageOf(off, size) < guard
                           /\ P!Probes(seq, off, size)
                           /\ P!Stays(seq, off, size, Pushed + 1)
\* the conditions notice a page left out, an order from below, and a page too many
Sharp == pc = "done" /\ Len(seq) > 0 =>
  LET n == P!PageOf(off, size)
      without == SelectSeq(seq, LAMBDA p : p # (n + 1) \div 2)
      up == [k \in 1 .. n |-> n + 1 - k]
  IN /\ n >= 1 => ~P!Probes(without, off, size)
     /\ n >= 2 => ~P!Probes(up, off, size)
     /\ ~P!Stays(Append(seq, P!PageOf(off, size + Pushed + 1) + 1), off, size, Pushed + 1)
=============================================================================
