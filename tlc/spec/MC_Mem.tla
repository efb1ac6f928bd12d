------------------------------- MODULE MC_Mem -------------------------------
(* The arithmetic definitions of Mem agree with byte-by-byte ones, and the  *)
(* memory functions keep what they must keep, for every small memory.       *)
EXTENDS Mem, FiniteSets
CONSTANT Size
VARIABLES m, last
B == Pow2(BW)
Vals == 0..(Pow2(BW * Size) - 1)
Idx == 0..Size
Calls == {c \in {MEMCPY, MEMMOVE, MEMSET} \X Idx \X Idx \X Idx : Allowed(Size, c[1], c[2], c[3], c[4])}
Init == m \in Vals /\ last = <<0, m>>
Next == \E c \in Calls : /\ m' = NextMem(m, c[1], c[2], c[3], c[4])
                         /\ last' = c \o <<m>>
\* one step from every memory is every step there is
StepOk ==
  Len(last) = 5 =>
  LET op == last[1]  d == last[2]  s == last[3]  n == last[4]  old == last[5]
  IN /\ m \in Vals
     /\ \A i \in 0..(Size - 1) :
          Byte(m, i) = IF i < d \/ i >= d + n THEN Byte(old, i)
                       ELSE IF op = MEMSET THEN s % B ELSE Byte(old, s + (i - d))
CmpDef(a, b, n) == IF \A i \in 0..(n - 1) : Byte(m, a + i) = Byte(m, b + i) THEN 0
                   ELSE LET k == CHOOSE k \in 0..(n - 1) :
                                   /\ Byte(m, a + k) # Byte(m, b + k)
                                   /\ \A i \in 0..(k - 1) : Byte(m, a + i) = Byte(m, b + i)
                        IN Signum(Byte(m, a + k) - Byte(m, b + k))
CmpOk == Len(last) = 2 => \A a \in Idx, b \in Idx : \A n \in 0..(Size - (IF a > b THEN a ELSE b)) : Cmp(m, a, b, n) = CmpDef(a, b, n)
LenOk == Len(last) = 2 => \A a \in 0..(Size - 1) :
           (\E i \in a..(Size - 1) : Byte(m, i) = 0)
             => \A k \in 0..(Size - 1 - a) :
                  IsStrLen(m, a, k) <=> (Byte(m, a + k) = 0 /\ \A i \in 0..(k - 1) : Byte(m, a + i) # 0)
Bound == Len(last) = 2
=============================================================================
