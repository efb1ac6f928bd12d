-------------------------------- MODULE C24 --------------------------------
(***************************************************************************)
(* Double-width integers and the helpers built on them.  A 256-bit integer *)
(* is a pair of 128-bit words, most significant first; the last parameter  *)
(* of an operation says whether it is signed.                              *)
(***************************************************************************)
EXTENDS Replay, Bits
W(h, l) == h * 2^128 + l
Sgn(w, s, x) == IF s = 1 /\ x >= 2^(w - 1) THEN x - 2^w ELSE x
Mod(w, x) == x % 2^w
V256(s, h, l) == Sgn(256, s, W(h, l))
Is256(r, x) == r[4][1] = Mod(256, x) \div 2^128 /\ r[4][2] = Mod(256, x) % 2^128
\* a value of 2w bits, recorded as two words
IsD(r, w, x) == W(r[4][1], r[4][2]) = Mod(2 * w, x)

ConformsC24(r) ==
  LET a == r[3]
      o == r[1]
      P == r[6]
      A2(s) == V256(s, a[1], a[2])
      B2(s) == V256(s, a[3], a[4])
      w == P[1]
      x == Sgn(w, P[2], a[1])
      y == Sgn(w, P[2], a[2])
  IN CASE o = "add256" -> Is256(r, A2(w) + B2(w))
       [] o = "sub256" -> Is256(r, A2(w) - B2(w))
       [] o = "or256"  -> r[4][1] = BitOr(a[1], a[3]) /\ r[4][2] = BitOr(a[2], a[4])
       [] o = "cmp256" -> r[4][1] = IF A2(w) < B2(w) THEN 0 ELSE IF A2(w) = B2(w) THEN 1 ELSE 2
       [] o = "not256" -> Is256(r, -A2(w) - 1)
       [] o = "shl256" -> Is256(r, A2(w) * 2^a[3])
       [] o = "shr256" -> Is256(r, A2(w) \div 2^a[3])
       [] o = "sign256" -> Is256(r, A2(0))
       [] o = "widen"   -> IsD(r, w, x)
       [] o = "zwiden"  -> IsD(r, w, a[1])
       [] o = "widenhi" -> IsD(r, w, a[1] * 2^w)
       [] o = "zwmul"   -> IsD(r, w, a[1] * a[2])
       [] o = "wmul"    -> IsD(r, w, x * y)
       [] o = "lohi"    -> LET v == Mod(2 * w, W(a[1], a[2]))
                           IN r[4][3] = 0 /\ r[4][1] = v % 2^w /\ r[4][2] = v \div 2^w
       [] o = "fromlohi" -> IsD(r, w, a[2] * 2^w + a[1])
       [] o = "ndiv"    -> LET n == a[1] * 2^w + a[2]
                           IN IF a[3] = 0 \/ n \div a[3] >= 2^w THEN r[4][1] = 0
                              ELSE r[4][1] = 1 /\ r[4][2] = n \div a[3] /\ r[4][3] = n % a[3]
       [] o = "modred"  -> r[4][1] = (a[1] * 2^a[2]) % a[3]
       [] o = "cadd"    -> LET v == x + y + a[3]
                           IN r[4][1] = Mod(w, v) /\ r[4][2] = IF Sgn(w, P[2], Mod(w, v)) # v THEN 1 ELSE 0
       [] o = "bsub"    -> LET v == x - y - a[3]
                           IN r[4][1] = Mod(w, v) /\ r[4][2] = IF Sgn(w, P[2], Mod(w, v)) # v THEN 1 ELSE 0
       [] o = "absdiff" -> r[4][1] = IF x >= y THEN x - y ELSE y - x
       [] o = "lshr"    -> r[4][1] = a[1] \div 2^a[2]
       [] o = "uabs"    -> LET v == Sgn(w, 1, a[1]) IN r[4][1] = IF v < 0 THEN -v ELSE v
=============================================================================
