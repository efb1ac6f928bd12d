------------------------------ MODULE C29_Asm ------------------------------
(* Runs of math functions made of target-specific instructions.            *)
(* Record: op:arch:width:n name a^n word... > 0                            *)
EXTENDS Execute, FpCode
OutcomeC29(r) ==
  LET n == r[6][3]
  IN FpOutcome(r[1], r[6][1], Fmt(r[6][2]), SubSeq(r[3], 1, n), SubSeq(r[3], n + 1, Len(r[3])))
=============================================================================
