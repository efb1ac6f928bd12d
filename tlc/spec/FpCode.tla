------------------------------- MODULE FpCode -------------------------------
(***************************************************************************)
(* Straight-line floating-point code of AArch64 and LoongArch: decoding of *)
(* machine words and their execution by the operations of module IEEE.     *)
(* A state: [i (index of the next word), v (32 registers), out].           *)
(***************************************************************************)
EXTENDS Integers, Sequences, IEEE

LOCAL Fd(w, lo, n) == Shift(w, -lo) % 2^n
QNaN(f) == f.inf + (f.hid \div 2)
Bits0(f, x) == IF x = NaN THEN QNaN(f) ELSE x
\* what a write leaves in the rest of the register: nothing on AArch64, anything on LoongArch
Upper(arch) == IF arch = 0 THEN 0 ELSE 987654321
FRd(s, f, k) == s.v[k + 1] % 2^f.w
FWr(s, arch, f, k, x) == [s EXCEPT !.i = @ + 1, !.v[k + 1] = Bits0(f, x) + 2^f.w * Upper(arch)]
Unk(s) == [s EXCEPT !.out = "unknown"]

FNeg(f, x) == IF x = NaN THEN NaN ELSE Neg(f, x)
\* fused operations: sign of the product, sign of the addend
Fused(f, a, b, c, np, nc) == Fma(f, IF np THEN Neg(f, a) ELSE a, b, IF nc THEN Neg(f, c) ELSE c)
FAbs(f, x) == Mag(f, x)

A64Fp(s, w) ==
  LET ty == Fd(w, 22, 2)
      f == CASE ty = 0 -> F32 [] ty = 1 -> F64 [] OTHER -> F16
      d == Fd(w, 0, 5)  n == FRd(s, f, Fd(w, 5, 5))  m == FRd(s, f, Fd(w, 16, 5))  a == FRd(s, f, Fd(w, 10, 5))
      wr(x) == FWr(s, 0, f, d, x)
      op == Fd(w, 15, 6)
  IN CASE w = 2^31 + 1449067456 -> [s EXCEPT !.out = "ret"]                          \* d65f03c0
       [] ty = 2 /\ Fd(w, 24, 8) \in {30, 31} -> Unk(s)
       [] Fd(w, 24, 8) = 31 -> wr(Fused(f, n, m, a, Fd(w, 15, 1) # Fd(w, 21, 1), Fd(w, 21, 1) = 1))
       [] Fd(w, 24, 8) = 30 /\ Fd(w, 21, 1) = 1 /\ Fd(w, 10, 5) = 16 ->
            CASE op = 0 -> wr(n)
              [] op = 1 -> wr(FAbs(f, n))
              [] op = 2 -> wr(Neg(f, n))
              [] op = 3 -> wr(Sqrt(f, n))
              [] op \in {8, 14, 15} -> wr(Integral(f, "N", n))
              [] op = 9 -> wr(Integral(f, "U", n))
              [] op = 10 -> wr(Integral(f, "D", n))
              [] op = 11 -> wr(Integral(f, "Z", n))
              [] op = 12 -> wr(Integral(f, "A", n))
              [] op \in {4, 5, 7} -> LET g == CASE op = 4 -> F32 [] op = 5 -> F64 [] OTHER -> F16
                                     IN FWr(s, 0, g, d, Convert(f, g, n))
              [] OTHER -> Unk(s)
       [] Fd(w, 24, 8) = 30 /\ Fd(w, 21, 1) = 1 /\ Fd(w, 10, 2) = 2 ->
            CASE Fd(w, 12, 4) = 0 -> wr(Mul(f, n, m))
              [] Fd(w, 12, 4) = 1 -> wr(Div(f, n, m))
              [] Fd(w, 12, 4) = 2 -> wr(Add(f, n, m))
              [] Fd(w, 12, 4) = 3 -> wr(Sub(f, n, m))
              [] Fd(w, 12, 4) = 8 -> wr(FNeg(f, Mul(f, n, m)))
              [] OTHER -> Unk(s)
       [] Fd(w, 21, 9) = 117 /\ Fd(w, 10, 6) = 7 /\ Fd(w, 16, 5) = Fd(w, 5, 5) ->        \* mov v.16b / v.8b
            [s EXCEPT !.i = @ + 1, !.v[d + 1] = s.v[Fd(w, 5, 5) + 1]]
       [] w % 2^32 = 2^31 + 1426268191 -> [s EXCEPT !.i = @ + 1]                          \* nop d503201f
       [] OTHER -> Unk(s)

LoongFp(s, w) ==
  LET d == Fd(w, 0, 5)
      t12 == Fd(w, 20, 12)
      t22 == Fd(w, 10, 22)
      t17 == Fd(w, 15, 17)
      three(f, np, nc) == FWr(s, 1, f, d, Fused(f, FRd(s, f, Fd(w, 5, 5)), FRd(s, f, Fd(w, 10, 5)), FRd(s, f, Fd(w, 15, 5)), np, nc))
      \* negated results differ from negated operands in the sign of a zero only
      neg3(f, nc) == FWr(s, 1, f, d, FNeg(f, Fused(f, FRd(s, f, Fd(w, 5, 5)), FRd(s, f, Fd(w, 10, 5)), FRd(s, f, Fd(w, 15, 5)), FALSE, nc)))
      one(f) == FRd(s, f, Fd(w, 5, 5))
      two(f) == FRd(s, f, Fd(w, 10, 5))
      wr(f, x) == FWr(s, 1, f, d, x)
  IN CASE w = 1275068448 -> [s EXCEPT !.out = "ret"]                                  \* 4c000020
       [] t12 = 129 -> three(F32, FALSE, FALSE)
       [] t12 = 130 -> three(F64, FALSE, FALSE)
       [] t12 = 133 -> three(F32, FALSE, TRUE)
       [] t12 = 134 -> three(F64, FALSE, TRUE)
       [] t12 = 137 -> neg3(F32, FALSE)
       [] t12 = 138 -> neg3(F64, FALSE)
       [] t12 = 141 -> neg3(F32, TRUE)
       [] t12 = 142 -> neg3(F64, TRUE)
       [] t22 = 17681 -> wr(F32, Sqrt(F32, one(F32)))
       [] t22 = 17682 -> wr(F64, Sqrt(F64, one(F64)))
       [] t22 = 17665 -> wr(F32, FAbs(F32, one(F32)))
       [] t22 = 17666 -> wr(F64, FAbs(F64, one(F64)))
       [] t22 = 17669 -> wr(F32, Neg(F32, one(F32)))
       [] t22 = 17670 -> wr(F64, Neg(F64, one(F64)))
       [] t22 \in {17701, 17702} -> [s EXCEPT !.i = @ + 1, !.v[d + 1] = s.v[Fd(w, 5, 5) + 1]]
       [] t22 \in {18321, 1877853, 1877837} -> wr(F32, Integral(F32, "N", one(F32)))     \* frint.s, vfrintrne.s, vfrint.s
       [] t22 \in {18322, 1877854, 1877838} -> wr(F64, Integral(F64, "N", one(F64)))
       [] t22 = 1877849 -> wr(F32, Integral(F32, "Z", one(F32)))
       [] t22 = 1877850 -> wr(F64, Integral(F64, "Z", one(F64)))
       [] t22 = 1877845 -> wr(F32, Integral(F32, "U", one(F32)))
       [] t22 = 1877846 -> wr(F64, Integral(F64, "U", one(F64)))
       [] t22 = 1877841 -> wr(F32, Integral(F32, "D", one(F32)))
       [] t22 = 1877842 -> wr(F64, Integral(F64, "D", one(F64)))
       [] t17 = 513 -> wr(F32, Add(F32, one(F32), two(F32)))
       [] t17 = 514 -> wr(F64, Add(F64, one(F64), two(F64)))
       [] t17 = 517 -> wr(F32, Sub(F32, one(F32), two(F32)))
       [] t17 = 518 -> wr(F64, Sub(F64, one(F64), two(F64)))
       [] t17 = 521 -> wr(F32, Mul(F32, one(F32), two(F32)))
       [] t17 = 522 -> wr(F64, Mul(F64, one(F64), two(F64)))
       [] t17 = 525 -> wr(F32, Div(F32, one(F32), two(F32)))
       [] t17 = 526 -> wr(F64, Div(F64, one(F64), two(F64)))
       [] OTHER -> Unk(s)

RECURSIVE FpRun(_, _, _)
FpRun(s, arch, code) ==
  IF s.out # "" THEN s
  ELSE IF s.i > Len(code) THEN [s EXCEPT !.out = "leaves the code"]
  ELSE FpRun(IF arch = 0 THEN A64Fp(s, code[s.i]) ELSE LoongFp(s, code[s.i]), arch, code)

\* The result of the function in register 0; both calling conventions pass floats in registers 0, 1, 2,
\* whose upper parts are unspecified.
FpCall(arch, f, args, code) ==
  LET s == [i |-> 1, out |-> "", v |-> [k \in 1..32 |-> (IF k <= Len(args) THEN args[k] ELSE 12345678 * k) + 2^f.w * (1000003 * k)]]
      e == FpRun(s, arch, code)
  IN [out |-> e.out, res |-> FRd(e, f, 0)]
FpMeaning(op, f, a) ==
  CASE op = "fma" -> Fma(f, a[1], a[2], a[3])
    [] op = "sqrt" -> Sqrt(f, a[1])
    [] op = "rint" -> Integral(f, "N", a[1])
    [] op = "ceil" -> Integral(f, "U", a[1])
    [] op = "floor" -> Integral(f, "D", a[1])
    [] op = "trunc" -> Integral(f, "Z", a[1])
    [] op = "round" -> Integral(f, "A", a[1])
    [] op = "fabs" -> Mag(f, a[1])
FpOutcome(op, arch, f, args, code) ==
  LET c == FpCall(arch, f, args, code)
  IN IF c.out # "ret" THEN c.out
     ELSE IF Same(f, FpMeaning(op, f, args), c.res) \/ (op = "fabs" /\ IsNaN(f, args[1]) /\ IsNaN(f, c.res)) THEN "ok"
     ELSE "result"
=============================================================================
