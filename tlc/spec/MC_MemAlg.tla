------------------------------ MODULE MC_MemAlg ------------------------------
(***************************************************************************)
(* The word-wise copy algorithm as it is implemented (one load or store    *)
(* after the other), on a small memory with small words.  It refines       *)
(* Mem!Copy and touches nothing outside the two ranges.                    *)
(*   forward:  bytes until the destination is aligned, whole words, bytes  *)
(*   backward: the same from the other end                                 *)
(* A misaligned source is read in aligned words; the first and the last    *)
(* one are read only in part.                                              *)
(***************************************************************************)
EXTENDS Mem, FiniteSets
CONSTANTS Size, W, Threshold
VARIABLES m, pc, dir, d, s, n, prev, call, touched
vars == <<m, pc, dir, d, s, n, prev, call, touched>>

\* every byte different: copying does not depend on the contents
M0 == [i \in 0..(Size - 1) |-> i + 1]
\* as Mem sees this memory
RECURSIVE Num(_, _)
Num(f, i) == IF i = Size THEN 0 ELSE Shift(f[i], BW * i) + Num(f, i + 1)
\* k bytes from offset x on, as a tuple; storing a tuple at offset x
Get(f, x, k) == [i \in 1..k |-> f[x + i - 1]]
Store(f, x, v) == [i \in 0..(Size - 1) |-> IF x <= i /\ i < x + Len(v) THEN v[i - x + 1] ELSE f[i]]
Move(f, to, from, k) == Store(f, to, Get(f, from, k))
Calls == {c \in [base : 0..(W - 1), op : {MEMCPY, MEMMOVE}, d : 0..Size, s : 0..Size, n : 0..Size] :
            Allowed(Size, c.op, c.d, c.s, c.n)}
\* the direction rule of memmove
Delta(c) == (c.d - c.s) % Pow2(32)
Init == /\ call \in Calls
        /\ m = M0 /\ pc = "start" /\ prev = <<>> /\ touched = {}
        /\ dir = IF call.op = MEMCPY \/ Delta(call) >= call.n THEN "fwd" ELSE "bwd"
        /\ d = IF dir = "fwd" THEN call.d ELSE call.d + call.n
        /\ s = IF dir = "fwd" THEN call.s ELSE call.s + call.n
        /\ n = call.n
\* addresses are base + offset
Mis(x) == (call.base + x) % W
HeadLen == IF dir = "fwd" THEN (W - Mis(d)) % W ELSE Mis(d)
Read(lo, k) == {<<"r", x>> : x \in lo..(lo + k - 1)}
Write(lo, k) == {<<"w", x>> : x \in lo..(lo + k - 1)}

\* one byte
CopyByte(next) ==
  IF dir = "fwd"
  THEN /\ m' = Move(m, d, s, 1) /\ touched' = touched \cup Read(s, 1) \cup Write(d, 1)
       /\ d' = d + 1 /\ s' = s + 1 /\ n' = n - 1 /\ pc' = next
  ELSE /\ m' = Move(m, d - 1, s - 1, 1) /\ touched' = touched \cup Read(s - 1, 1) \cup Write(d - 1, 1)
       /\ d' = d - 1 /\ s' = s - 1 /\ n' = n - 1 /\ pc' = next

Start == pc = "start" /\ pc' = (IF call.n >= Threshold THEN "head" ELSE "tail")
         /\ UNCHANGED <<m, dir, d, s, n, prev, call, touched>>
HeadStep == /\ pc = "head"
            /\ IF HeadLen # 0 THEN CopyByte("head") ELSE pc' = "words" /\ UNCHANGED <<m, d, s, n, touched>>
            /\ UNCHANGED <<dir, prev, call>>
\* with an aligned source, or where words may be read anywhere
AlignedWord == /\ pc = "words" /\ n >= W /\ Mis(s) = 0
               /\ IF dir = "fwd"
                  THEN /\ m' = Move(m, d, s, W) /\ touched' = touched \cup Read(s, W) \cup Write(d, W)
                       /\ d' = d + W /\ s' = s + W
                  ELSE /\ m' = Move(m, d - W, s - W, W) /\ touched' = touched \cup Read(s - W, W) \cup Write(d - W, W)
                       /\ d' = d - W /\ s' = s - W
               /\ n' = n - W /\ UNCHANGED <<pc, dir, prev, call>>
\* misaligned source: prev holds the part of the current aligned word that is still needed
MisStart == /\ pc = "words" /\ n >= W /\ Mis(s) # 0
            /\ IF dir = "fwd"
               THEN LET k == W - Mis(s) IN prev' = Get(m, s, k) /\ touched' = touched \cup Read(s, k)
               ELSE LET k == Mis(s) IN prev' = Get(m, s - k, k) /\ touched' = touched \cup Read(s - k, k)
            /\ pc' = "mis" /\ UNCHANGED <<m, dir, d, s, n, call>>
MisWord == /\ pc = "mis"
           /\ LET off == Mis(s)
                  more == n >= 2 * W
              IN IF dir = "fwd"
                 THEN LET have == W - off
                          k == IF more THEN W ELSE off            \* bytes read of the next aligned word
                          cur == Get(m, s + have, k)
                      IN /\ m' = Store(m, d, prev \o SubSeq(cur, 1, off))
                         /\ prev' = SubSeq(cur, off + 1, k)
                         /\ touched' = touched \cup Read(s + have, k) \cup Write(d, W)
                         /\ d' = d + W /\ s' = s + W
                 ELSE LET need == W - off
                          k == IF more THEN W ELSE need
                          cur == Get(m, s - off - k, k)
                      IN /\ m' = Store(m, d - W, SubSeq(cur, k - need + 1, k) \o prev)
                         /\ prev' = SubSeq(cur, 1, k - need)
                         /\ touched' = touched \cup Read(s - off - k, k) \cup Write(d - W, W)
                         /\ d' = d - W /\ s' = s - W
           /\ n' = n - W
           /\ pc' = (IF n >= 2 * W THEN "mis" ELSE "tail")
           /\ UNCHANGED <<dir, call>>
WordsDone == pc = "words" /\ n < W /\ pc' = "tail" /\ UNCHANGED <<m, dir, d, s, n, prev, call, touched>>
TailStep == /\ pc = "tail"
            /\ IF n > 0 THEN CopyByte("tail") ELSE pc' = "done" /\ UNCHANGED <<m, d, s, n, touched>>
            /\ UNCHANGED <<dir, prev, call>>
Next == Start \/ HeadStep \/ AlignedWord \/ MisStart \/ MisWord \/ WordsDone \/ TailStep
Spec == Init /\ [][Next]_vars

Correct == pc = "done" => Num(m, 0) = Copy(Num(M0, 0), call.d, call.s, call.n)
InBounds == \A t \in touched : IF t[1] = "r" THEN call.s <= t[2] /\ t[2] < call.s + call.n
                                             ELSE call.d <= t[2] /\ t[2] < call.d + call.n
NoSkip == n >= 0
NotStuck == pc # "done" => ENABLED Next
=============================================================================
