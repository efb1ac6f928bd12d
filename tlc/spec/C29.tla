-------------------------------- MODULE C29 --------------------------------
(***************************************************************************)
(* Math functions with code of their own for a target.  Records as in the  *)
(* general properties; on 32-bit x86 without SSE2 with a second result,    *)
(* the control and tag words of the x87 unit after the call.               *)
(***************************************************************************)
EXTENDS C08, C10, C13, C14, Sequences

X87Initial == 65535 * 65536 + 895              \* all registers empty; 64-bit precision, to nearest
ConformsC29(r) ==
  /\ CASE r[1] \in {"ceil", "floor", "trunc", "rint"} -> ConformsC08(r)
       [] r[1] = "sqrt" -> ConformsC10(r)
       [] r[1] = "fabs" -> ConformsC13(r)
       [] r[1] \in {"exp", "exp2", "exp10"} -> ConformsC14(r)
  /\ Len(r[4]) = 2 => r[4][2] = X87Initial
=============================================================================
