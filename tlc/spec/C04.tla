-------------------------------- MODULE C04 --------------------------------
(* Comparison intrinsics.  The result is a signed integer; what counts is  *)
(* the test a compiler makes on it:                                        *)
(*   a < b  is  lt(a,b) < 0,   a <= b  is  le(a,b) <= 0,   a == b  is      *)
(*   eq(a,b) = 0, a # b is ne(a,b) # 0, and so on.                         *)
EXTENDS Replay, IEEE

Test(op, r) == CASE op = "lt" -> r < 0
                 [] op = "le" -> r <= 0
                 [] op = "gt" -> r > 0
                 [] op = "ge" -> r >= 0
                 [] op = "eq" -> r = 0
                 [] op = "ne" -> r # 0
                 [] op = "unord" -> r # 0
Relation(op, f, a, b) ==
  IF Unordered(f, a, b) THEN op \in {"ne", "unord"}
  ELSE LET x == Ord(f, a)
           y == Ord(f, b)
       IN CASE op = "lt" -> x < y
            [] op = "le" -> x <= y
            [] op = "gt" -> x > y
            [] op = "ge" -> x >= y
            [] op = "eq" -> x = y
            [] op = "ne" -> x # y
            [] op = "unord" -> FALSE
Signed64(x) == IF x >= 2^63 THEN x - 2^64 ELSE x
ConformsC04(r) == Test(r[1], Signed64(r[4][1])) = Relation(r[1], Fmt(r[6][1]), r[3][1], r[3][2])
=============================================================================
