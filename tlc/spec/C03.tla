-------------------------------- MODULE C03 --------------------------------
(* Addition, subtraction, multiplication and division of one format.       *)
(* Records: op:width  a b > r                                              *)
EXTENDS Replay, IEEE

Arith(op, f, a, b) == CASE op = "add" -> Add(f, a, b)
                        [] op = "sub" -> Sub(f, a, b)
                        [] op = "mul" -> Mul(f, a, b)
                        [] op = "div" -> Div(f, a, b)
ConformsC03(r) == LET f == Fmt(r[6][1]) IN Same(f, Arith(r[1], f, r[3][1], r[3][2]), r[4][1])
=============================================================================
