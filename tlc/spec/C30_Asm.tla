------------------------------ MODULE C30_Asm ------------------------------
(* Runs of the AVR division routines.                                      *)
(* Record: avr:width name flags a b word... > 0                            *)
EXTENDS Execute, AVR
OutcomeC30(r) == AvrDivMod(SubSeq(r[3], 4, Len(r[3])), r[6][1], r[3][2], r[3][3], r[3][1])
=============================================================================
