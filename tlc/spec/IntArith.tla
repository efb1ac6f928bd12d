------------------------------ MODULE IntArith ------------------------------
(***************************************************************************)
(* Fixed-width integer arithmetic as exact integer arithmetic.             *)
(***************************************************************************)
EXTENDS Integers, Bits

Abs(x) == IF x < 0 THEN -x ELSE x
Wrap(w, x) == x % 2^w                                   \* bit pattern of x at width w
AsSigned(w, b) == IF b >= 2^(w-1) THEN b - 2^w ELSE b   \* two's-complement reading
Val(sgn, w, b) == IF sgn THEN AsSigned(w, b) ELSE b
MinOf(sgn, w) == IF sgn THEN -(2^(w-1)) ELSE 0
MaxOf(sgn, w) == IF sgn THEN 2^(w-1) - 1 ELSE 2^w - 1
Fits(sgn, w, x) == MinOf(sgn, w) <= x /\ x <= MaxOf(sgn, w)

\* Truncated division.
TDiv(n, d) == LET q == Abs(n) \div Abs(d) IN IF (n < 0) = (d < 0) THEN q ELSE -q
TRem(n, d) == n - d * TDiv(n, d)

\* The defining property of a quotient/remainder pair at width w (quotient modulo 2^w).
IsDivRem(sgn, w, nb, db, qb, rb) ==
  LET n == Val(sgn, w, nb)
      d == Val(sgn, w, db)
      r == Val(sgn, w, rb)
  IN /\ Abs(r) < Abs(d)
     /\ r # 0 => (r < 0) = (n < 0)
     /\ (n - r) % Abs(d) = 0
     /\ qb = Wrap(w, IF d > 0 THEN (n - r) \div d ELSE -((n - r) \div (-d)))
=============================================================================
