-------------------------------- MODULE C18 ---------------------------------
(***************************************************************************)
(* Totality and purity.  pure:w fn args > a b rest: the call returned      *)
(* (a panic, trap, bad access or hang is recorded as an outcome and no     *)
(* specification allows it), and calling it again gave the same result.    *)
(***************************************************************************)
EXTENDS Replay, Laws
ConformsC18(r) ==
  LET w == r[6][1] IN
  /\ r[4][3] = 1
  /\ IF w = 0 THEN r[4][1] = r[4][2] ELSE Alike(Fmt(w), r[4][1], r[4][2])
=============================================================================
