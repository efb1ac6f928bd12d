-------------------------------- MODULE C02 --------------------------------
(* Integer addition, subtraction, multiplication, shifts, bit counts, byte   *)
(* swaps.                                                                   *)
EXTENDS Replay, IntArith

ArithSig(kind, sgn, w) == [kind |-> kind, sgn |-> sgn, w |-> w]
ArithOps == [
  __rust_u128_add |-> ArithSig("add", FALSE, 128), __rust_i128_add |-> ArithSig("add", TRUE, 128),
  __rust_u128_sub |-> ArithSig("sub", FALSE, 128), __rust_i128_sub |-> ArithSig("sub", TRUE, 128),
  __rust_u128_addo |-> ArithSig("addo", FALSE, 128), __rust_i128_addo |-> ArithSig("addo", TRUE, 128),
  __rust_u128_subo |-> ArithSig("subo", FALSE, 128), __rust_i128_subo |-> ArithSig("subo", TRUE, 128),
  __rust_u128_mulo |-> ArithSig("mulo", FALSE, 128), __rust_i128_mulo |-> ArithSig("mulo", TRUE, 128),
  __muldi3 |-> ArithSig("mul", FALSE, 64), __multi3 |-> ArithSig("mul", TRUE, 128), __mulsi3 |-> ArithSig("mul", FALSE, 32),
  __mulosi4 |-> ArithSig("mulo", TRUE, 32), __mulodi4 |-> ArithSig("mulo", TRUE, 64), __muloti4 |-> ArithSig("mulo", TRUE, 128),
  __ashlsi3 |-> ArithSig("shl", FALSE, 32), __ashldi3 |-> ArithSig("shl", FALSE, 64), __ashlti3 |-> ArithSig("shl", FALSE, 128),
  __lshrsi3 |-> ArithSig("shr", FALSE, 32), __lshrdi3 |-> ArithSig("shr", FALSE, 64), __lshrti3 |-> ArithSig("shr", FALSE, 128),
  __ashrsi3 |-> ArithSig("shr", TRUE, 32), __ashrdi3 |-> ArithSig("shr", TRUE, 64), __ashrti3 |-> ArithSig("shr", TRUE, 128),
  __clzsi2 |-> ArithSig("clz", FALSE, 32), __clzdi2 |-> ArithSig("clz", FALSE, 64), __clzti2 |-> ArithSig("clz", FALSE, 128),
  clz16 |-> ArithSig("clz", FALSE, 16), clz32 |-> ArithSig("clz", FALSE, 32), clz64 |-> ArithSig("clz", FALSE, 64),
  ctz16 |-> ArithSig("ctz", FALSE, 16), ctz32 |-> ArithSig("ctz", FALSE, 32), ctz64 |-> ArithSig("ctz", FALSE, 64),
  __ctzsi2 |-> ArithSig("ctz", FALSE, 32), __ctzdi2 |-> ArithSig("ctz", FALSE, 64), __ctzti2 |-> ArithSig("ctz", FALSE, 128),
  __bswapsi2 |-> ArithSig("bswap", FALSE, 32), __bswapdi2 |-> ArithSig("bswap", FALSE, 64), __bswapti2 |-> ArithSig("bswap", FALSE, 128) ]

RECURSIVE SwapBytes(_, _)
SwapBytes(n, x) == IF n = 0 THEN 0 ELSE (x % 256) * 2^(8 * (n - 1)) + SwapBytes(n - 1, x \div 256)

Overflowing(o, exact, x) ==
  /\ x[1] = Wrap(o.w, exact)
  /\ x[2] = IF Fits(o.sgn, o.w, exact) THEN 0 ELSE 1

ConformsC02(r) ==
  LET o == ArithOps[r[1]]
      a == r[3][1]
      A == Val(o.sgn, o.w, a)
      B == Val(o.sgn, o.w, r[3][2])
      x == r[4]
  IN CASE o.kind = "add" -> x[1] = Wrap(o.w, A + B)
       [] o.kind = "sub" -> x[1] = Wrap(o.w, A - B)
       [] o.kind = "mul" -> x[1] = Wrap(o.w, A * B)
       [] o.kind = "addo" -> Overflowing(o, A + B, x)
       [] o.kind = "subo" -> Overflowing(o, A - B, x)
       [] o.kind = "mulo" -> Overflowing(o, A * B, x)
       [] o.kind = "shl" -> x[1] = Wrap(o.w, A * 2^(r[3][2]))
       [] o.kind = "shr" -> x[1] = Wrap(o.w, A \div 2^(r[3][2]))
       [] o.kind = "clz" -> x[1] = o.w - BitLen(a)
       [] o.kind = "ctz" -> x[1] = IF a = 0 THEN o.w ELSE TrailingZeros(a)
       [] o.kind = "bswap" -> x[1] = SwapBytes(o.w \div 8, a)
=============================================================================
