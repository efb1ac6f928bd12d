-------------------------------- MODULE C11 --------------------------------
(* Remainders.  Records: fmod:w a b > r, remainder:w a b > r,              *)
(* remquo:w a b > r quo                                                    *)
EXTENDS Replay, Exact
QuoOk(f, a, b, quo) ==
  RemDomain(f, a, b) =>
    LET n == RemQuo(f, TRUE, a, b) % 2^31
    IN quo = IF XorSign(f, a, b) = 1 THEN -n ELSE n
ConformsC11(r) ==
  LET f == Fmt(r[6][1])
      a == r[3][1]
      b == r[3][2]
      x == r[4][1]
  IN CASE r[1] = "fmod" -> Same(f, Fmod(f, a, b), x)
       [] r[1] = "remainder" -> Same(f, Remainder(f, a, b), x)
       [] r[1] = "remquo" -> Same(f, Remainder(f, a, b), x) /\ QuoOk(f, a, b, Signed32(r[4][2]))
=============================================================================
