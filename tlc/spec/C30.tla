-------------------------------- MODULE C30 --------------------------------
(* The library as configured on other targets: records as in C28, and     *)
(* trigonometric functions as in C15.                                      *)
EXTENDS C28, C15
ConformsC30(r) == IF r[1] \in {"sin", "cos", "tan"} THEN ConformsC15(r) ELSE ConformsNamed(r)
=============================================================================
