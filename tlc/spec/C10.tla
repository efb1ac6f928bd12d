-------------------------------- MODULE C10 --------------------------------
(* Square root, cube root, hypotenuse.                                     *)
(* Records: sqrt:w a > r, cbrt:w a > r, hypot:w:ulps a b > r               *)
EXTENDS Replay, Exact
ConformsC10(r) ==
  LET f == Fmt(r[6][1])
      a == r[3][1]
      x == r[4][1]
  IN CASE r[1] = "sqrt" -> Same(f, Sqrt(f, a), x)
       [] r[1] = "cbrt" -> IsCbrt(f, a, x)
       [] r[1] = "hypot" -> LET h == Hypot(f, a, r[3][2])
                            IN Same(f, h, x) \/ (h # NaN /\ ~IsNaN(f, x) /\ SignOf(f, x) = 0 /\ Abs(Ord(f, h) - Ord(f, x)) <= r[6][2])
=============================================================================
