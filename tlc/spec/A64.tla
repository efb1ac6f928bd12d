-------------------------------- MODULE A64 --------------------------------
(***************************************************************************)
(* The part of the AArch64 instruction set that atomic read-modify-write   *)
(* routines are made of: decoding of machine words and execution on one    *)
(* core with a local exclusive monitor.  Registers, like memory, are       *)
(* tuples of bytes, least significant first; addresses are below 2^31.     *)
(*                                                                         *)
(* A core: [pc, r (x0..x17), f (flags N Z C V), mem (bytes), mon].         *)
(* Executing an instruction gives the core afterwards plus what it did to  *)
(* memory, which the specification of the routines judges:                 *)
(*   eff = <<"none">>, <<"load", offset, size, acquire>>,                  *)
(*         <<"rmw", offset, size, acquire, release, new memory>>,          *)
(*         <<"store", offset, size, release, new memory>>, <<"fence", k>>, *)
(*         <<"ret">>, <<"lse", ...>> for the former with an instruction of *)
(*         the large system extension, <<"fault">>, <<"unknown">>          *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bits

Fld(w, lo, n) == (w \div 2^lo) % 2^n
Signed(x, n) == IF x >= 2^(n-1) THEN x - 2^n ELSE x

\* ------------------------------------------------------------ byte tuples
ZeroB(n) == [i \in 1..n |-> 0]
Widen(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0]
Cut(b, n) == SubSeq(b, 1, n)
RECURSIVE Carry(_, _, _, _)
\* carry into byte i (1-based) of a + b + c
Carry(a, b, c, i) == IF i = 1 THEN c ELSE (a[i-1] + b[i-1] + Carry(a, b, c, i - 1)) \div 256
AddB(a, b, c) == [i \in 1..Len(a) |-> (a[i] + b[i] + Carry(a, b, c, i)) % 256]
NotB(a) == [i \in 1..Len(a) |-> 255 - a[i]]
AndB(a, b) == [i \in 1..Len(a) |-> BitAnd(a[i], b[i])]
OrB(a, b) == [i \in 1..Len(a) |-> BitOr(a[i], b[i])]
XorB(a, b) == [i \in 1..Len(a) |-> BitXor(a[i], b[i])]
Top(a) == a[Len(a)] >= 128
\* flags of a + b + c
FlagsAdd(a, b, c) == LET s == AddB(a, b, c)
                     IN <<Top(s), s = ZeroB(Len(a)), Carry(a, b, c, Len(a) + 1) = 1, (Top(a) = Top(b)) /\ (Top(s) # Top(a))>>
FlagsLogic(s) == <<Top(s), s = ZeroB(Len(s)), FALSE, FALSE>>
Int31(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
IsAddr(b) == b[4] < 128 /\ \A i \in 5..8 : b[i] = 0
FromInt(x, n) == [i \in 1..n |-> (x \div 256^(i-1)) % 256]
\* low k bits of x, zero- or sign-extended
ByteMask(k, i) == IF k >= 8 * i THEN 255 ELSE IF k <= 8 * (i - 1) THEN 0 ELSE 2^(k - 8 * (i - 1)) - 1
LowBits(x, k) == [i \in 1..Len(x) |-> BitAnd(x[i], ByteMask(k, i))]
BitOf(x, k) == Fld(x[(k \div 8) + 1], k % 8, 1)
SignBits(x, k) == IF BitOf(x, k - 1) = 1 THEN [i \in 1..Len(x) |-> BitOr(LowBits(x, k)[i], 255 - ByteMask(k, i))] ELSE LowBits(x, k)

\* ------------------------------------------------------------ registers
\* number 31 reads as zero; x18..x30 are not for these routines to use
Known(n) == n <= 17 \/ n = 31
Reg(c, n, size) == IF n = 31 THEN ZeroB(size) ELSE Cut(c.r[n + 1], size)
SetReg(c, n, b) == IF n = 31 THEN c ELSE [c EXCEPT !.r[n + 1] = Widen(b, 8)]

Cond(f, k) ==
  LET base == CASE k \div 2 = 0 -> f[2]
                [] k \div 2 = 1 -> f[3]
                [] k \div 2 = 2 -> f[1]
                [] k \div 2 = 3 -> f[4]
                [] k \div 2 = 4 -> f[3] /\ ~f[2]
                [] k \div 2 = 5 -> f[1] = f[4]
                [] k \div 2 = 6 -> (f[1] = f[4]) /\ ~f[2]
                [] OTHER -> TRUE
  IN IF k % 2 = 1 /\ k # 15 THEN ~base ELSE base

\* ------------------------------------------------------------ memory
\* c.mem is the memory at Base; a byte elsewhere (the flag) is in c.flag at c.flagat
Base == 131072
Inside(c, a, n) == a >= Base /\ a + n <= Base + Len(c.mem)
Peek(c, off, n) == SubSeq(c.mem, off + 1, off + n)
Poke(mem, off, b) == [i \in DOMAIN mem |-> IF i > off /\ i <= off + Len(b) THEN b[i - off] ELSE mem[i]]

Out(c, eff) == <<[c EXCEPT !.pc = @ + 4], eff>>
Jump(c, to, eff) == <<[c EXCEPT !.pc = to], eff>>
Unknown(c) == <<c, <<"unknown">>>>
Fault(c) == <<c, <<"fault">>>>

\* ------------------------------------------------------------ groups of instructions
AddSub(c, w, b2) ==
  LET n == IF Fld(w, 31, 1) = 1 THEN 8 ELSE 4
      rn == Fld(w, 5, 5)  rd == Fld(w, 0, 5)
      a == Reg(c, rn, n)
      sub == Fld(w, 30, 1) = 1
      b == IF sub THEN NotB(b2) ELSE b2
      ci == IF sub THEN 1 ELSE 0
      c1 == SetReg(c, rd, AddB(a, b, ci))
  IN IF ~Known(rn) \/ ~Known(rd) THEN Unknown(c)
     ELSE IF Fld(w, 29, 1) = 1 THEN Out([c1 EXCEPT !.f = FlagsAdd(a, b, ci)], <<"none">>)
     ELSE Out(c1, <<"none">>)

Logical(c, w) ==
  LET n == IF Fld(w, 31, 1) = 1 THEN 8 ELSE 4
      rn == Fld(w, 5, 5)  rd == Fld(w, 0, 5)  rm == Fld(w, 16, 5)
      a == Reg(c, rn, n)
      b == IF Fld(w, 21, 1) = 1 THEN NotB(Reg(c, rm, n)) ELSE Reg(c, rm, n)
      opc == Fld(w, 29, 2)
      s == CASE opc \in {0, 3} -> AndB(a, b) [] opc = 1 -> OrB(a, b) [] OTHER -> XorB(a, b)
      c1 == SetReg(c, rd, s)
  IN IF ~Known(rn) \/ ~Known(rd) \/ ~Known(rm) \/ Fld(w, 10, 6) # 0 THEN Unknown(c)
     ELSE Out(IF opc = 3 THEN [c1 EXCEPT !.f = FlagsLogic(s)] ELSE c1, <<"none">>)

Bitfield(c, w) ==
  LET n == IF Fld(w, 31, 1) = 1 THEN 8 ELSE 4
      rn == Fld(w, 5, 5)  rd == Fld(w, 0, 5)  immr == Fld(w, 16, 6)  imms == Fld(w, 10, 6)  opc == Fld(w, 29, 2)
      x == Reg(c, rn, n)
  IN IF ~Known(rn) \/ ~Known(rd) \/ immr # 0 \/ imms >= 8 * n \/ opc \notin {0, 2} THEN Unknown(c)
     ELSE Out(SetReg(c, rd, IF opc = 2 THEN LowBits(x, imms + 1) ELSE SignBits(x, imms + 1)), <<"none">>)

CondCompare(c, w) ==
  LET n == IF Fld(w, 31, 1) = 1 THEN 8 ELSE 4
      rn == Fld(w, 5, 5)  rm == Fld(w, 16, 5)
      a == Reg(c, rn, n)
      b == IF Fld(w, 11, 1) = 1 THEN Widen(<<rm>>, n) ELSE Reg(c, rm, n)
      k == Fld(w, 0, 4)
      imm == <<k \div 8 = 1, (k \div 4) % 2 = 1, (k \div 2) % 2 = 1, k % 2 = 1>>
      f == IF Fld(w, 30, 1) = 1 THEN FlagsAdd(a, NotB(b), 1) ELSE FlagsAdd(a, b, 0)
  IN IF ~Known(rn) \/ (Fld(w, 11, 1) = 0 /\ ~Known(rm)) THEN Unknown(c)
     ELSE Out([c EXCEPT !.f = IF Cond(c.f, Fld(w, 12, 4)) THEN f ELSE imm], <<"none">>)

MoveWide(c, w) ==
  LET n == IF Fld(w, 31, 1) = 1 THEN 8 ELSE 4
      hw == Fld(w, 21, 2)  imm == Fld(w, 5, 16)  rd == Fld(w, 0, 5)  opc == Fld(w, 29, 2)
      two == <<imm % 256, imm \div 256>>
      at == [i \in 1..8 |-> IF i = 2 * hw + 1 THEN two[1] ELSE IF i = 2 * hw + 2 THEN two[2] ELSE 0]
      kept == [i \in 1..8 |-> IF i \in {2 * hw + 1, 2 * hw + 2} THEN at[i] ELSE Reg(c, rd, 8)[i]]
  IN IF ~Known(rd) \/ 2 * hw >= n THEN Unknown(c)
     ELSE CASE opc = 0 -> Out(SetReg(c, rd, Cut(NotB(at), n)), <<"none">>)
            [] opc = 2 -> Out(SetReg(c, rd, Cut(at, n)), <<"none">>)
            [] opc = 3 -> Out(SetReg(c, rd, Cut(kept, n)), <<"none">>)
            [] OTHER -> Unknown(c)

\* loads, stores and compare-and-swap of the exclusive group
Exclusive(c, w) ==
  LET sz == 2 ^ Fld(w, 30, 2)
      o2 == Fld(w, 23, 1)  L == Fld(w, 22, 1)  o1 == Fld(w, 21, 1)  o0 == Fld(w, 15, 1)
      rs == Fld(w, 16, 5)  rt2 == Fld(w, 10, 5)  rn == Fld(w, 5, 5)  rt == Fld(w, 0, 5)
      pair == o2 = 0 /\ o1 = 1
      casp == pair /\ Fld(w, 31, 1) = 0
      psz == IF casp THEN (IF Fld(w, 30, 1) = 1 THEN 8 ELSE 4) ELSE sz
      n == IF pair THEN 2 * psz ELSE sz
      abytes == Reg(c, rn, 8)
      a == Int31(abytes)
      off == a - Base
      good == IsAddr(abytes) /\ Inside(c, a, n) /\ a % n = 0
      ok == \A x \in {rs, rn, rt} \cup (IF pair /\ ~casp THEN {rt2} ELSE {}) : Known(x)
      old == Peek(c, off, n)
      two(x, y) == Reg(c, x, psz) \o Reg(c, y, psz)
      set2(c0, x, y, b) == SetReg(SetReg(c0, x, Cut(b, psz)), y, SubSeq(b, psz + 1, 2 * psz))
  IN IF ~ok \/ rn = 31 THEN Unknown(c)
     ELSE IF ~good THEN Fault(c)
     ELSE IF casp
          THEN IF rt2 # 31 \/ rs % 2 = 1 \/ rt % 2 = 1 \/ rs > 16 \/ rt > 16 THEN Unknown(c)
               ELSE LET same == old = two(rs, rs + 1)
                        mem == IF same THEN Poke(c.mem, off, two(rt, rt + 1)) ELSE c.mem
                        c1 == [set2(c, rs, rs + 1, old) EXCEPT !.mem = mem, !.mon = <<>>]
                    IN Out(c1, <<"lse", IF same THEN <<"rmw", off, n, L = 1, o0 = 1, mem>> ELSE <<"load", off, n, L = 1>>>>)
     ELSE IF o2 = 1 /\ o1 = 1
          THEN IF rt2 # 31 THEN Unknown(c)
               ELSE LET same == old = Reg(c, rs, n)
                        mem == IF same THEN Poke(c.mem, off, Reg(c, rt, n)) ELSE c.mem
                        c1 == [SetReg(c, rs, old) EXCEPT !.mem = mem, !.mon = <<>>]
                    IN Out(c1, <<"lse", IF same THEN <<"rmw", off, n, L = 1, o0 = 1, mem>> ELSE <<"load", off, n, L = 1>>>>)
     ELSE IF o2 = 1
          THEN \* load-acquire, store-release
               IF L = 1 THEN Out(SetReg(c, rt, old), <<"load", off, n, o0 = 1>>)
               ELSE LET mem == Poke(c.mem, off, Reg(c, rt, n))
                    IN Out([c EXCEPT !.mem = mem], <<"store", off, n, o0 = 1, mem>>)
     ELSE IF L = 1
          THEN LET c1 == IF pair THEN set2(c, rt, rt2, old) ELSE SetReg(c, rt, old)
               IN Out([c1 EXCEPT !.mon = <<off, n>>], <<"load", off, n, o0 = 1>>)
     ELSE \* store exclusive: succeeds only while the monitor holds the same bytes
          LET new == IF pair THEN two(rt, rt2) ELSE Reg(c, rt, n)
              mem == Poke(c.mem, off, new)
          IN IF c.mon = <<off, n>>
             THEN Out([SetReg(c, rs, ZeroB(4)) EXCEPT !.mem = mem, !.mon = <<>>], <<"store", off, n, o0 = 1, mem>>)
             ELSE Out([SetReg(c, rs, <<1, 0, 0, 0>>) EXCEPT !.mon = <<>>], <<"none">>)

\* atomic memory operations of the large system extension
AtomicOp(c, w) ==
  LET n == 2 ^ Fld(w, 30, 2)
      rs == Fld(w, 16, 5)  rn == Fld(w, 5, 5)  rt == Fld(w, 0, 5)
      opc == Fld(w, 12, 3)  o3 == Fld(w, 15, 1)
      abytes == Reg(c, rn, 8)
      a == Int31(abytes)
      off == a - Base
      old == Peek(c, off, n)
      v == Reg(c, rs, n)
      new == CASE o3 = 1 -> v
               [] opc = 0 -> AddB(old, v, 0)
               [] opc = 1 -> AndB(old, NotB(v))
               [] opc = 2 -> XorB(old, v)
               [] OTHER -> OrB(old, v)
      mem == Poke(c.mem, off, new)
      acquire == Fld(w, 23, 1) = 1 /\ rt # 31
  IN IF ~Known(rs) \/ ~Known(rn) \/ ~Known(rt) \/ rn = 31 \/ Fld(w, 10, 2) # 0 \/ (o3 = 1 /\ opc # 0) \/ opc > 3
     THEN Unknown(c)
     ELSE IF ~(IsAddr(abytes) /\ Inside(c, a, n) /\ a % n = 0) THEN Fault(c)
     ELSE Out([SetReg(c, rt, old) EXCEPT !.mem = mem, !.mon = <<>>],
              <<"lse", <<"rmw", off, n, acquire, Fld(w, 22, 1) = 1, mem>>>>)

\* plain load of one unsigned size with an unsigned offset: the flag, or the operand
PlainLoad(c, w) ==
  LET n == 2 ^ Fld(w, 30, 2)
      rn == Fld(w, 5, 5)  rt == Fld(w, 0, 5)
      abytes == Reg(c, rn, 8)
      a == Int31(abytes) + n * Fld(w, 10, 12)
  IN IF ~Known(rn) \/ ~Known(rt) \/ rn = 31 THEN Unknown(c)
     ELSE IF ~IsAddr(abytes) THEN Fault(c)
     ELSE IF a = c.flagat /\ n = 1 THEN Out(SetReg(c, rt, <<c.flag>>), <<"none">>)
     ELSE IF Inside(c, a, n) THEN Out(SetReg(c, rt, Peek(c, a - Base, n)), <<"load", a - Base, n, FALSE>>)
     ELSE Fault(c)

Branch19(c, w) == c.pc + 4 * Signed(Fld(w, 5, 19), 19)
AllZero(b) == \A i \in DOMAIN b : b[i] = 0

Exec(c, w) ==
  CASE Fld(w, 24, 5) = 16 ->        \* adr, adrp
         LET imm == Signed(Fld(w, 5, 19) * 4 + Fld(w, 29, 2), 21)
             to == IF Fld(w, 31, 1) = 1 THEN (c.pc - (c.pc % 4096)) + 4096 * imm ELSE c.pc + imm
         IN IF ~Known(Fld(w, 0, 5)) THEN Unknown(c) ELSE Out(SetReg(c, Fld(w, 0, 5), FromInt(to, 8)), <<"none">>)
    [] Fld(w, 23, 6) = 34 ->        \* add, sub with an immediate
         IF Fld(w, 5, 5) = 31 \/ Fld(w, 22, 1) = 1 THEN Unknown(c)
         ELSE AddSub(c, w, FromInt(Fld(w, 10, 12), IF Fld(w, 31, 1) = 1 THEN 8 ELSE 4))
    [] Fld(w, 24, 5) = 11 /\ Fld(w, 21, 1) = 0 ->        \* add, sub of registers
         IF Fld(w, 10, 6) # 0 \/ ~Known(Fld(w, 16, 5)) THEN Unknown(c)
         ELSE AddSub(c, w, Reg(c, Fld(w, 16, 5), IF Fld(w, 31, 1) = 1 THEN 8 ELSE 4))
    [] Fld(w, 21, 8) = 89 ->        \* add, sub of an extended register
         IF Fld(w, 10, 3) # 0 \/ ~Known(Fld(w, 16, 5)) \/ Fld(w, 13, 3) > 3 THEN Unknown(c)
         ELSE AddSub(c, w, LET n == IF Fld(w, 31, 1) = 1 THEN 8 ELSE 4
                           IN LowBits(Reg(c, Fld(w, 16, 5), n), 8 * 2 ^ Fld(w, 13, 3)))
    [] Fld(w, 24, 5) = 10 -> Logical(c, w)
    [] Fld(w, 23, 6) = 38 -> Bitfield(c, w)
    [] Fld(w, 23, 6) = 37 -> MoveWide(c, w)
    [] Fld(w, 21, 8) = 210 /\ Fld(w, 29, 1) = 1 -> CondCompare(c, w)
    [] Fld(w, 25, 6) = 26 ->        \* cbz, cbnz
         IF ~Known(Fld(w, 0, 5)) THEN Unknown(c)
         ELSE LET z == AllZero(Reg(c, Fld(w, 0, 5), IF Fld(w, 31, 1) = 1 THEN 8 ELSE 4))
              IN Jump(c, IF z = (Fld(w, 24, 1) = 0) THEN Branch19(c, w) ELSE c.pc + 4, <<"none">>)
    [] Fld(w, 25, 6) = 27 ->        \* tbz, tbnz
         IF ~Known(Fld(w, 0, 5)) THEN Unknown(c)
         ELSE LET b == BitOf(Reg(c, Fld(w, 0, 5), 8), 32 * Fld(w, 31, 1) + Fld(w, 19, 5))
              IN Jump(c, IF b = Fld(w, 24, 1) THEN c.pc + 4 * Signed(Fld(w, 5, 14), 14) ELSE c.pc + 4, <<"none">>)
    [] Fld(w, 24, 8) = 84 /\ Fld(w, 4, 1) = 0 ->        \* b.cond
         Jump(c, IF Cond(c.f, Fld(w, 0, 4)) THEN Branch19(c, w) ELSE c.pc + 4, <<"none">>)
    [] Fld(w, 26, 6) = 5 -> Jump(c, c.pc + 4 * Signed(Fld(w, 0, 26), 26), <<"none">>)
    [] Fld(w, 16, 16) = 54879 /\ Fld(w, 5, 5) = 30 -> <<c, <<"ret">>>>
    [] Fld(w, 24, 6) = 8 -> Exclusive(c, w)
    [] Fld(w, 24, 6) = 56 /\ Fld(w, 21, 1) = 1 -> AtomicOp(c, w)
    [] Fld(w, 22, 8) = 229 -> PlainLoad(c, w)
    [] Fld(w, 16, 16) = 54531 /\ Fld(w, 12, 4) = 3 ->        \* barriers, clrex
         CASE Fld(w, 5, 3) = 5 -> Out(c, <<"fence", Fld(w, 8, 4) % 4>>)
           [] Fld(w, 5, 3) \in {4, 6} -> Out(c, <<"none">>)
           [] Fld(w, 5, 3) = 2 -> Out([c EXCEPT !.mon = <<>>], <<"none">>)
           [] OTHER -> Unknown(c)
    [] Fld(w, 16, 16) = 54531 /\ Fld(w, 12, 4) = 2 -> Out(c, <<"none">>)        \* hints
    [] OTHER -> Unknown(c)
=============================================================================
