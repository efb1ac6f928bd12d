-------------------------------- MODULE C22 --------------------------------
(***************************************************************************)
(* Integer powers.  Record: powi:w x n > r                                 *)
(* x^n is computed to about 250 bits.  |x|^|n| may be off by the relative  *)
(* error of |n|-1 rounded multiplications and, below the normal range, by  *)
(* a few units of the smallest datum; a negative power is the reciprocal   *)
(* of that, rounded once more.                                             *)
(***************************************************************************)
EXTENDS Replay, IEEE

Prec == 256
Cut(v) ==                       \* <<mantissa, exponent>> shortened by truncation
  LET k == BitLen(v[1]) - Prec
  IN IF k <= 0 THEN v ELSE <<v[1] \div 2^k, v[2] + k>>
Times(v, w) == Cut(<<v[1] * w[1], v[2] + w[2]>>)
RECURSIVE Power(_, _)
Power(x, m) ==
  IF m = 1 THEN x
  ELSE LET h == Power(x, m \div 2)
           s == Times(h, h)
       IN IF m % 2 = 0 THEN s ELSE Times(s, x)

\* n * 2^q rounded, with values far outside the range brought next to it
RndPos(f, n, q) ==
  IF n <= 0 THEN 0
  ELSE LET top == BitLen(n) + q
       IN IF top > f.bias + 3 THEN f.inf
          ELSE IF top < f.qmin - 3 THEN 0
          ELSE RN(f, 0, n, 1, q)
Recip(f, a) == Div(f, Signed(f, 0, f.bias * f.hid), a)

Spread == 64                    \* units of the smallest datum
PowOk(f, x, n, r) ==
  LET m   == Abs(n)
      neg == SignOf(f, x) = 1 /\ m % 2 = 1
      sg  == IF neg THEN 1 ELSE 0
  IN
  CASE n = 0 -> r = f.bias * f.hid
    [] IsNaN(f, x) -> IsNaN(f, r)
    [] IsInf(f, x) -> r = IF n > 0 THEN Inf(f, sg) ELSE Zero(f, sg)
    [] IsZero(f, x) -> r = IF n > 0 THEN Zero(f, sg) ELSE Inf(f, sg)
    [] OTHER ->
        LET tz  == TrailingZeros(Sig(f, x))
            odd == Sig(f, x) \div 2^tz
            P   == Power(<<odd, Expo(f, x) + tz>>, m)
            E   == P[1] * 2^64                  \* room for the error terms
            q   == P[2] - 64
            \* t = (m-1) * 2^-p; (1+2^-p)^(m-1) <= 1+t+t^2 and >= 1-t for t <= 1
            t   == m - 1
            known == t <= 2^f.p
            up  == (E * t * (2^f.p + t)) \div 2^(2 * f.p) + E \div 2^60 + 1
            dn  == (E * t) \div 2^f.p + 1
            top == BitLen(E) + q
            sub == IF top > f.qmin + f.p + 3 THEN 0
                   ELSE IF q <= f.qmin THEN Spread * 2^(Min(f.qmin - q, 2000 + f.p + Prec)) ELSE Spread
            exact == BitLen(odd) * m <= f.p
            lo  == RndPos(f, E - (IF exact THEN 0 ELSE dn + sub), q)
            hi  == RndPos(f, E + (IF exact THEN 0 ELSE up + sub), q)
            a   == Mag(f, r)
        IN /\ ~IsNaN(f, r)
           /\ SignOf(f, r) = sg
           /\ known => IF n > 0 THEN lo <= a /\ a <= hi
                       ELSE Recip(f, hi) <= a /\ a <= Recip(f, lo)
ConformsC22(r) == PowOk(Fmt(r[6][1]), r[3][1], Signed32(r[3][2]), r[4][1])
=============================================================================
