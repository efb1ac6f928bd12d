------------------------------ MODULE C28_Asm ------------------------------
(* Runs of the division routines that are written in assembly.             *)
(* Record: divmod:thumb:signed:width name a b word... > 0                  *)
EXTENDS Execute, A32
OutcomeC28(r) == DivMod(SubSeq(r[3], 3, Len(r[3])), r[6][1] = 1, r[6][2] = 1, r[6][3], r[3][1], r[3][2])
=============================================================================
