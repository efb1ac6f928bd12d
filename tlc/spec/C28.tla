-------------------------------- MODULE C28 --------------------------------
(***************************************************************************)
(* The library as configured on 32-bit ARM: functions under the names of   *)
(* the run-time ABI for the ARM architecture, and everything that is       *)
(* configured differently there.  The operation of a record says which     *)
(* function the name stands for; what the function has to do is specified  *)
(* in the modules of the general properties.                               *)
(* Records, besides those of C01 - C07:                                    *)
(*   truth:width:rel  a b > 0 or 1                                         *)
(* Memory functions of the ABI return nothing: the record repeats d.       *)
(***************************************************************************)
EXTENDS C01, C02, C03, C04, C05, C06, C07

TruthRel == <<"eq", "lt", "le", "ge", "gt", "unord">>
ConformsNamed(r) ==
  CASE r[1] \in DOMAIN DivOps -> ConformsC01(r)
    [] r[1] \in DOMAIN ArithOps -> ConformsC02(r)
    [] r[1] \in {"add", "sub", "mul", "div"} -> ConformsC03(r)
    [] r[1] \in {"lt", "le", "gt", "ge", "eq", "ne", "unord"} -> ConformsC04(r)
    [] r[1] = "conv" -> ConformsC05(r)
    [] r[1] \in {"i2f", "f2i"} -> ConformsC06(r)
    [] r[1] = "mem" -> ConformsC07(r)
    [] r[1] = "truth" ->
         r[4][1] = IF Relation(TruthRel[r[6][2] + 1], Fmt(r[6][1]), r[3][1], r[3][2]) THEN 1 ELSE 0
ConformsC28(r) == ConformsNamed(r)
=============================================================================
