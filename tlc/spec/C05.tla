-------------------------------- MODULE C05 --------------------------------
(* Conversions between float formats.  Records: conv:from:to  a > r        *)
EXTENDS Replay, IEEE
ConformsC05(r) == LET f == Fmt(r[6][1])
                      g == Fmt(r[6][2])
                      a == r[3][1]
                      x == r[4][1]
                  IN /\ Same(g, Convert(f, g, a), x)
                     /\ SignOf(f, a) = SignOf(g, x)
                     \* widening loses nothing
                     /\ (g.w >= f.w /\ ~IsNaN(f, a)) => Convert(g, f, x) = a
=============================================================================
