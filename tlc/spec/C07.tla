-------------------------------- MODULE C07 --------------------------------
(* Memory functions.  Records:                                             *)
(*   mem  number size memory (op d s n)* > (ret memory)*     a history     *)
(*   bigmem number op n period > ret count                                 *)
(*     n > 2^32 bytes that repeat every period bytes; count of the period  *)
(*     bytes behind the destination have the new value afterwards          *)
EXTENDS Replay, Mem
ConformsC07(r) ==
  LET a == r[3]  o == r[4]
  IN IF r[1] = "mem"
     THEN HistoryOk(a[2], a[3], a, o, 0)
     ELSE /\ r[1] = "bigmem"
          /\ o[2] = a[4]
          /\ o[1] = CASE a[2] \in {MEMCPY, MEMMOVE, MEMSET} -> 0
                      [] a[2] \in {MEMCMP, BCMP} -> 1
                      [] OTHER -> a[3]
=============================================================================
