-------------------------------- MODULE C23 --------------------------------
(* Hexadecimal floating-point text.  Records:                              *)
(* parse:bits:sig num text > (error bits status) in the modes nearest,     *)
(*   down, up, zero, then (error bits) of the exact parser; short: alike;  *)
(* print:w num x > text ok back                                            *)
EXTENDS Replay, HexFloat
SameT(f, e, x) == IF e = NaN THEN IsNaN(f, x) ELSE x = e
ParseOk(r) ==
  LET g == MkFmt(r[6][1] - r[6][2] - 1, r[6][2] + 1)
      s == r[3][2]
      InMode(k, mode) ==
        LET e == ParseResult(g, mode, s)
        IN /\ r[4][3 * k + 1] = e[1]
           /\ e[1] = 0 => /\ SameT(g, e[2], r[4][3 * k + 2])
                          /\ e[2] = NaN => SignOf(g, r[4][3 * k + 2]) = Parse(s)[2]
                          /\ r[4][3 * k + 3] = e[3]
      n == ParseResult(g, "N", s)
      exact == n[1] = 0 /\ n[3] = 0
  IN /\ InMode(0, "N") /\ InMode(1, "D") /\ InMode(2, "U") /\ InMode(3, "Z")
     /\ r[4][13] = IF exact THEN 0 ELSE 1
     /\ exact => SameT(g, n[2], r[4][14])
PrintOk(r) ==
  LET f == Fmt(r[6][1])
      x == r[3][2]
  IN /\ r[4][1] = Text(f, x)
     /\ IF IsNaN(f, x) THEN r[4][2] = 0 ELSE r[4][2] = 1 /\ r[4][3] = x
ConformsC23(r) == IF r[1] = "print" THEN PrintOk(r) ELSE ParseOk(r)
=============================================================================
