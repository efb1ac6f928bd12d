-------------------------------- MODULE C15 ---------------------------------
(***************************************************************************)
(* Trigonometric and hyperbolic functions within their tolerance.          *)
(* Records: sin:w x > r, ..., sincos:w x > s c, atan2:w y x > r            *)
(***************************************************************************)
EXTENDS Replay, Elem

Bound15(fn) == CASE fn \in {"sin", "cos", "tan", "asin", "acos", "atan", "cosh"} -> 1
                 [] fn \in {"sinh", "tanh", "asinh", "atanh"} -> 2
                 [] fn = "acosh" -> 4
ConformsC15(r) ==
  LET f == Fmt(r[6][1]) IN
  CASE r[1] = "sincos" -> /\ Elem1("sin", f, 1, r[3][1], r[4][1])
                          /\ Elem1("cos", f, 1, r[3][1], r[4][2])
    [] r[1] = "atan2" -> Atan2Ok(f, 2, r[3][1], r[3][2], r[4][1])
    [] OTHER -> Elem1(r[1], f, Bound15(r[1]), r[3][1], r[4][1])
=============================================================================
