-------------------------------- MODULE AVR --------------------------------
(***************************************************************************)
(* The part of the AVR instruction set that register arithmetic is made    *)
(* of.  A state: [pc (in words), r (32 registers), c, z, v, n, h, t        *)
(* (flags), stk (bytes pushed, last first), out].                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Bits

LOCAL Fld(w, lo, n) == Shift(w, -lo) % 2^n
LOCAL Bit(x, i) == Fld(x, i, 1) = 1
LOCAL Num(b) == IF b THEN 1 ELSE 0
LOCAL Ext(x, n) == IF x >= 2^(n-1) THEN x - 2^n ELSE x
LOCAL Bad(s, why) == [s EXCEPT !.out = why]
LOCAL Nxt(s) == [s EXCEPT !.pc = @ + 1]
LOCAL Put(s, d, x) == [s EXCEPT !.r[d + 1] = x]

LOCAL FlagsAdd(s, a, b, x, cin) ==
  [s EXCEPT !.c = a + b + cin >= 256, !.z = x = 0, !.n = x >= 128, !.v = (a >= 128) = (b >= 128) /\ (a >= 128) # (x >= 128),
            !.h = (a % 16) + (b % 16) + cin >= 16]
LOCAL FlagsSub(s, a, b, x, cin, keepz) ==
  [s EXCEPT !.c = a - b - cin < 0, !.z = x = 0 /\ (keepz => s.z), !.n = x >= 128,
            !.v = (a >= 128) # (b >= 128) /\ (a >= 128) # (x >= 128), !.h = (a % 16) - (b % 16) - cin < 0]
LOCAL FlagsLog(s, x) == [s EXCEPT !.z = x = 0, !.n = x >= 128, !.v = FALSE]
LOCAL Shifted(s, x, c) == [s EXCEPT !.c = c, !.z = x = 0, !.n = x >= 128, !.v = (x >= 128) # c]

\* number of words the instruction at hand has (for skips)
LOCAL Size(w) == IF (Fld(w, 9, 7) = 74 /\ Fld(w, 2, 2) = 3) \/ (Fld(w, 10, 6) = 36 /\ w % 16 = 0) THEN 2 ELSE 1
LOCAL Skip(s, code, yes) ==
  IF ~yes THEN Nxt(s) ELSE [s EXCEPT !.pc = @ + 1 + (IF @ + 2 <= Len(code) THEN Size(code[@ + 2]) ELSE 1)]

LOCAL Flag(s, k) == CASE k = 0 -> s.c [] k = 1 -> s.z [] k = 2 -> s.n [] k = 3 -> s.v
                      [] k = 4 -> s.n # s.v [] k = 5 -> s.h [] OTHER -> s.t

Avr(s, w, code) ==
  LET d5 == Fld(w, 4, 5)
      r5 == (w % 16) + 16 * Fld(w, 9, 1)
      a == s.r[d5 + 1]
      b == s.r[r5 + 1]
      dh == 16 + Fld(w, 4, 4)
      ah == s.r[dh + 1]
      k == 16 * Fld(w, 8, 4) + (w % 16)
      C == Num(s.c)
      sub(x, y, c) == (x - y - c) % 256
      six == Fld(w, 10, 6)
      top == Fld(w, 12, 4)
  IN CASE w = 0 -> Nxt(s)
       [] six = 3 -> LET x == (a + b) % 256 IN Nxt(Put(FlagsAdd(s, a, b, x, 0), d5, x))                  \* add, lsl
       [] six = 7 -> LET x == (a + b + C) % 256 IN Nxt(Put(FlagsAdd(s, a, b, x, C), d5, x))              \* adc, rol
       [] six = 6 -> LET x == sub(a, b, 0) IN Nxt(Put(FlagsSub(s, a, b, x, 0, FALSE), d5, x))            \* sub
       [] six = 2 -> LET x == sub(a, b, C) IN Nxt(Put(FlagsSub(s, a, b, x, C, TRUE), d5, x))             \* sbc
       [] six = 5 -> Nxt(FlagsSub(s, a, b, sub(a, b, 0), 0, FALSE))                                      \* cp
       [] six = 1 -> Nxt(FlagsSub(s, a, b, sub(a, b, C), C, TRUE))                                       \* cpc
       [] six = 4 -> Skip(s, code, a = b)                                                                \* cpse
       [] six = 8 -> LET x == BitAnd(a, b) IN Nxt(Put(FlagsLog(s, x), d5, x))
       [] six = 9 -> LET x == BitXor(a, b) IN Nxt(Put(FlagsLog(s, x), d5, x))
       [] six = 10 -> LET x == BitOr(a, b) IN Nxt(Put(FlagsLog(s, x), d5, x))
       [] six = 11 -> Nxt(Put(s, d5, b))                                                                 \* mov
       [] Fld(w, 8, 8) = 1 -> LET d == 2 * Fld(w, 4, 4)  e == 2 * (w % 16)                               \* movw
                              IN Nxt(Put(Put(s, d, s.r[e + 1]), d + 1, s.r[e + 2]))
       [] top = 3 -> Nxt(FlagsSub(s, ah, k, sub(ah, k, 0), 0, FALSE))                                    \* cpi
       [] top = 4 -> LET x == sub(ah, k, C) IN Nxt(Put(FlagsSub(s, ah, k, x, C, TRUE), dh, x))           \* sbci
       [] top = 5 -> LET x == sub(ah, k, 0) IN Nxt(Put(FlagsSub(s, ah, k, x, 0, FALSE), dh, x))          \* subi
       [] top = 6 -> LET x == BitOr(ah, k) IN Nxt(Put(FlagsLog(s, x), dh, x))                            \* ori, sbr
       [] top = 7 -> LET x == BitAnd(ah, k) IN Nxt(Put(FlagsLog(s, x), dh, x))                           \* andi, cbr
       [] top = 14 -> Nxt(Put(s, dh, k))                                                                 \* ldi
       [] top = 12 -> [s EXCEPT !.pc = @ + 1 + Ext(Fld(w, 0, 12), 12)]                                   \* rjmp
       [] Fld(w, 11, 5) = 30 ->                                                                          \* brbs, brbc
            IF w % 8 = 7 THEN Bad(s, "unknown")
            ELSE IF Flag(s, w % 8) = (Fld(w, 10, 1) = 0) THEN [s EXCEPT !.pc = @ + 1 + Ext(Fld(w, 3, 7), 7)] ELSE Nxt(s)
       [] Fld(w, 9, 7) \in {126, 127} /\ ~Bit(w, 3) -> Skip(s, code, Bit(a, w % 8) = Bit(w, 9))          \* sbrc, sbrs
       [] Fld(w, 9, 7) = 125 /\ ~Bit(w, 3) -> Nxt([s EXCEPT !.t = Bit(a, w % 8)])                        \* bst
       [] Fld(w, 9, 7) = 124 /\ ~Bit(w, 3) ->                                                            \* bld
            Nxt(Put(s, d5, BitOr(BitAnd(a, 255 - 2^(w % 8)), Num(s.t) * 2^(w % 8))))
       [] w = 38152 -> IF s.stk = <<>> THEN Bad(s, "ret") ELSE Bad(s, "stack")                           \* ret 9508
       [] Fld(w, 8, 8) = 148 /\ w % 16 = 8 /\ Fld(w, 4, 3) # 7 ->                                        \* bset, bclr
            LET f == Fld(w, 4, 3)  x == Fld(w, 7, 1) = 0
            IN IF f = 4 THEN Bad(s, "unknown")
               ELSE Nxt(CASE f = 0 -> [s EXCEPT !.c = x] [] f = 1 -> [s EXCEPT !.z = x] [] f = 2 -> [s EXCEPT !.n = x]
                          [] f = 3 -> [s EXCEPT !.v = x] [] f = 5 -> [s EXCEPT !.h = x] [] OTHER -> [s EXCEPT !.t = x])
       [] Fld(w, 9, 7) = 74 /\ w % 16 \in {0, 1, 2, 3, 5, 6, 7, 10} ->
            CASE w % 16 = 0 -> LET x == 255 - a IN Nxt(Put([FlagsLog(s, x) EXCEPT !.c = TRUE], d5, x))          \* com
              [] w % 16 = 1 -> LET x == sub(0, a, 0) IN Nxt(Put(FlagsSub(s, 0, a, x, 0, FALSE), d5, x))         \* neg
              [] w % 16 = 2 -> Nxt(Put(s, d5, 16 * (a % 16) + (a \div 16)))                                     \* swap
              [] w % 16 = 3 -> LET x == (a + 1) % 256 IN Nxt(Put([s EXCEPT !.z = x = 0, !.n = x >= 128, !.v = x = 128], d5, x))
              [] w % 16 = 5 -> LET x == (a \div 2) + (IF a >= 128 THEN 128 ELSE 0) IN Nxt(Put(Shifted(s, x, Bit(a, 0)), d5, x))
              [] w % 16 = 6 -> LET x == a \div 2 IN Nxt(Put(Shifted(s, x, Bit(a, 0)), d5, x))
              [] w % 16 = 7 -> LET x == (a \div 2) + 128 * C IN Nxt(Put(Shifted(s, x, Bit(a, 0)), d5, x))
              [] OTHER -> LET x == (a - 1) % 256 IN Nxt(Put([s EXCEPT !.z = x = 0, !.n = x >= 128, !.v = x = 127], d5, x))
       [] Fld(w, 8, 8) \in {150, 151} ->                                                                 \* adiw, sbiw
            LET d == 24 + 2 * Fld(w, 4, 2)
                i == (w % 16) + 16 * Fld(w, 6, 2)
                y == s.r[d + 1] + 256 * s.r[d + 2]
                add == Fld(w, 8, 8) = 150
                g == IF add THEN y + i ELSE y - i
                x == g % 65536
                v == IF add THEN y < 32768 /\ x >= 32768 ELSE y >= 32768 /\ x < 32768
            IN Nxt(Put(Put([s EXCEPT !.c = g # x, !.z = x = 0, !.n = x >= 32768, !.v = v], d, x % 256), d + 1, x \div 256))
       [] Fld(w, 10, 6) = 39 ->                                                                          \* mul
            LET p == a * b IN Nxt(Put(Put([s EXCEPT !.c = p >= 32768, !.z = p = 0], 0, p % 256), 1, p \div 256))
       [] Fld(w, 9, 7) = 73 /\ w % 16 = 15 -> Nxt([s EXCEPT !.stk = <<a>> \o @])                         \* push
       [] Fld(w, 9, 7) = 72 /\ w % 16 = 15 ->                                                            \* pop
            IF s.stk = <<>> THEN Bad(s, "stack") ELSE Nxt(Put([s EXCEPT !.stk = SubSeq(@, 2, Len(@))], d5, s.stk[1]))
       [] OTHER -> Bad(s, "unknown")

RECURSIVE AvrRun(_, _, _)
AvrRun(s, code, fuel) ==
  IF s.out # "" THEN s
  ELSE IF fuel = 0 THEN Bad(s, "does not end")
  ELSE IF s.pc \notin 0..(Len(code) - 1) THEN Bad(s, "leaves the code")
  ELSE AvrRun(Avr(s, code[s.pc + 1], code), code, fuel - 1)

\* flags: their values on entry, which the routine may not rely on
AvrStart(regs, flags) ==
  [pc |-> 0, r |-> [i \in 1..32 |-> IF i - 1 \in DOMAIN regs THEN regs[i - 1] ELSE (37 * i + 11) % 256],
   c |-> Bit(flags, 0), z |-> Bit(flags, 1), v |-> Bit(flags, 2), n |-> Bit(flags, 3), h |-> Bit(flags, 4), t |-> Bit(flags, 5),
   stk |-> <<>>, out |-> ""]
\* __udivmodqi4: r24 / r22, quotient in r24, remainder in r25; only r23 and the flags change besides.
\* __udivmodhi4: r25:r24 / r23:r22, quotient in r23:r22, remainder in r25:r24; besides r21, r26, r27 and the flags.
AvrDivMod(code, w, a, b, flags) ==
  LET s == AvrStart(IF w = 8 THEN 22 :> b @@ 24 :> a
                    ELSE 22 :> b % 256 @@ 23 :> b \div 256 @@ 24 :> a % 256 @@ 25 :> a \div 256, flags)
      e == AvrRun(s, code, 2000)
      r(i) == e.r[i + 1]
      q == IF w = 8 THEN r(24) ELSE r(22) + 256 * r(23)
      m == IF w = 8 THEN r(25) ELSE r(24) + 256 * r(25)
      free == IF w = 8 THEN {23, 24, 25} ELSE {21, 22, 23, 24, 25, 26, 27}
  IN IF e.out # "ret" THEN e.out
     ELSE IF q # a \div b \/ m # a % b THEN "result"
     ELSE IF \E i \in 0..31 \ free : r(i) # s.r[i + 1] THEN "saved register"
     ELSE "ok"
=============================================================================
