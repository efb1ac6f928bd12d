-------------------------------- MODULE Mem --------------------------------
(***************************************************************************)
(* Memory functions as a state machine over a memory of Size bytes.  The   *)
(* memory is the natural number whose base-2^BW digits are its bytes, the  *)
(* byte at offset 0 being the least significant one.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bits
CONSTANT BW                                     \* bits in a byte

Byte(m, i) == Shift(m, -(BW * i)) % Pow2(BW)
Bytes(m, s, n) == Shift(m, -(BW * s)) % Pow2(BW * n)
\* memory m with the n bytes from d on replaced by the digits of v
Put(m, d, n, v) == m - Shift(Bytes(m, d, n), BW * d) + Shift(v, BW * d)
\* n times the byte c
Fill(c, n) == c * ((Pow2(BW * n) - 1) \div (Pow2(BW) - 1))

Copy(m, d, s, n) == Put(m, d, n, Bytes(m, s, n))
Set(m, d, c, n) == Put(m, d, n, Fill(c % Pow2(BW), n))

\* lexicographic comparison of unsigned bytes: -1, 0, 1
Cmp(m, a, b, n) ==
  LET x == Bytes(m, a, n)
      y == Bytes(m, b, n)
  IN IF x = y THEN 0
     ELSE LET k == TrailingZeros(BitXor(x, y)) \div BW     \* first byte that differs
          IN IF Byte(x, k) < Byte(y, k) THEN -1 ELSE 1

\* k is the length of the string that starts at i
NoZero(x, k) == \A j \in 0..(k - 1) : Byte(x, j) # 0
IsStrLen(m, i, k) == Byte(m, i + k) = 0 /\ NoZero(Bytes(m, i, k), k)

Disjoint(d, s, n) == d = s \/ d + n <= s \/ s + n <= d

MEMCPY == 1  MEMMOVE == 2  MEMSET == 3  MEMCMP == 4  BCMP == 5  STRLEN == 6
\* what may be called: the ranges lie in the memory; memcpy's do not overlap
Allowed(size, op, d, s, n) ==
  /\ d + n <= size
  /\ op \notin {MEMSET, STRLEN} => s + n <= size
  /\ op = MEMCPY => Disjoint(d, s, n)
NextMem(m, op, d, s, n) == IF op \in {MEMCPY, MEMMOVE} THEN Copy(m, d, s, n)
                           ELSE IF op = MEMSET THEN Set(m, d, s, n)
                           ELSE m
Signum(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Int32(x) == IF x >= Pow2(31) THEN x - Pow2(32) ELSE x
RetOk(m, op, d, s, n, ret) ==
  CASE op \in {MEMCPY, MEMMOVE, MEMSET} -> ret = d
    [] op = MEMCMP -> Signum(Int32(ret)) = Cmp(m, d, s, n)
    [] op = BCMP -> (ret = 0) <=> (Cmp(m, d, s, n) = 0)
    [] op = STRLEN -> IsStrLen(m, d, ret)
    [] OTHER -> FALSE

\* steps is number size memory op d s n op d s n ..., outs is ret mem ret mem ...; k counts steps from 0
RECURSIVE HistoryOk(_, _, _, _, _)
HistoryOk(size, m, steps, outs, k) ==
  IF 4 * k + 3 = Len(steps) THEN Len(outs) = 2 * k
  ELSE LET op == steps[4*k + 4]  d == steps[4*k + 5]  s == steps[4*k + 6]  n == steps[4*k + 7]
           m2 == NextMem(m, op, d, s, n)
       IN /\ Allowed(size, op, d, s, n)
          /\ Len(outs) >= 2 * k + 2
          /\ RetOk(m, op, d, s, n, outs[2*k + 1])
          /\ outs[2*k + 2] = m2
          /\ HistoryOk(size, outs[2*k + 2], steps, outs, k + 1)
=============================================================================
