-------------------------------- MODULE C01 --------------------------------
(* Integer division and remainder.                                          *)
(* Records: "div"   n d      > q                                            *)
(*          "rem"   n d      > r                                            *)
(*          "divrem" n d     > q r                (both delivered)          *)
(*          "divopt" n d old > q new              (remainder pointer null)  *)
(* `op` names the intrinsic, `config` the implementation it came from.      *)
EXTENDS Replay, IntArith

DivSig(kind, sgn, w) == [kind |-> kind, sgn |-> sgn, w |-> w]
DivOps == [
  __udivsi3 |-> DivSig("div", FALSE, 32), __udivdi3 |-> DivSig("div", FALSE, 64), __udivti3 |-> DivSig("div", FALSE, 128),
  __umodsi3 |-> DivSig("rem", FALSE, 32), __umoddi3 |-> DivSig("rem", FALSE, 64), __umodti3 |-> DivSig("rem", FALSE, 128),
  __udivmodsi4 |-> DivSig("divrem", FALSE, 32), __udivmoddi4 |-> DivSig("divrem", FALSE, 64), __udivmodti4 |-> DivSig("divrem", FALSE, 128),
  __udivmodsi4_null |-> DivSig("div", FALSE, 32), __udivmoddi4_null |-> DivSig("div", FALSE, 64), __udivmodti4_null |-> DivSig("div", FALSE, 128),
  __divsi3 |-> DivSig("div", TRUE, 32), __divdi3 |-> DivSig("div", TRUE, 64), __divti3 |-> DivSig("div", TRUE, 128),
  __modsi3 |-> DivSig("rem", TRUE, 32), __moddi3 |-> DivSig("rem", TRUE, 64), __modti3 |-> DivSig("rem", TRUE, 128),
  __divmodsi4 |-> DivSig("divrem", TRUE, 32), __divmoddi4 |-> DivSig("divrem", TRUE, 64), __divmodti4 |-> DivSig("divrem", TRUE, 128),
  u8_div_rem |-> DivSig("divrem", FALSE, 8), u16_div_rem |-> DivSig("divrem", FALSE, 16), u32_div_rem |-> DivSig("divrem", FALSE, 32),
  u64_div_rem |-> DivSig("divrem", FALSE, 64), u128_div_rem |-> DivSig("divrem", FALSE, 128) ]

ConformsC01(r) ==
  LET o == DivOps[r[1]]
      n == r[3][1]
      d == r[3][2]
      N == Val(o.sgn, o.w, n)
      DD == Val(o.sgn, o.w, d)
      x == r[4]
  IN CASE o.kind = "divrem" -> IsDivRem(o.sgn, o.w, n, d, x[1], x[2])
       [] o.kind = "div" -> x[1] = Wrap(o.w, TDiv(N, DD))
       [] o.kind = "rem" -> x[1] = Wrap(o.w, TRem(N, DD))
=============================================================================
