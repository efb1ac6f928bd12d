------------------------------ MODULE HexFloat ------------------------------
(***************************************************************************)
(* C-style hexadecimal floating-point literals: the grammar, the exact     *)
(* value of a literal, its rounding into any binary interchange format,    *)
(* and the canonical text of a value.  A text is a sequence of byte codes. *)
(*                                                                         *)
(*   literal  = [sign] ("inf" | "nan" | "0x" digits "p" [sign] decimals)   *)
(*   digits   = hexadecimal digits with at most one point, at least one    *)
(*              digit; letters in either case                              *)
(***************************************************************************)
EXTENDS IEEE, Sequences

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
IsHex(c) == c \in 48..57 \/ Lower(c) \in 97..102
IsDec(c) == c \in 48..57
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE Lower(c) - 87
IsSgn(c) == c \in {43, 45}
IsPt(c) == c = 46
IsP(c) == Lower(c) = 112

First(s, i, P(_)) ==           \* first position from i on where P holds, or Len(s)+1
  LET M == {k \in i..Len(s) : P(s[k])}
  IN IF M = {} THEN Len(s) + 1 ELSE CHOOSE k \in M : \A j \in M : k <= j

\* Value of the digits s[i..j] in the given base; other characters are skipped over by skip.
RECURSIVE Num(_, _, _, _)
Num(s, i, j, base) ==
  IF i > j THEN 0
  ELSE IF i = j THEN HexVal(s[i])
  ELSE LET m == (i + j) \div 2 IN Num(s, i, m, base) * base^(j - m) + Num(s, m + 1, j, base)

(* Parse(s) is <<"bad">>, <<"inf", sign>>, <<"nan", sign>> or               *)
(* <<"num", sign, n, e>> for the value (-1)^sign * n * 2^e.                 *)
Parse(s) ==
  LET N  == Len(s)
      sg == IF N >= 1 /\ s[1] = 45 THEN 1 ELSE 0
      b  == IF N >= 1 /\ IsSgn(s[1]) THEN 2 ELSE 1
      Word(w) == N = b + 2 /\ \A k \in 0..2 : Lower(s[b + k]) = w[k + 1]
  IN IF Word(<<105, 110, 102>>) THEN <<"inf", sg>>
     ELSE IF Word(<<110, 97, 110>>) THEN <<"nan", sg>>
     ELSE IF ~(N >= b + 1 /\ s[b] = 48 /\ Lower(s[b + 1]) = 120) THEN <<"bad">>
     ELSE
     LET d0 == b + 2
         pp == First(s, d0, IsP)
         pt == First(s, d0, IsPt)
         haspt == pt < pp
         x0 == IF pp < N /\ IsSgn(s[pp + 1]) THEN pp + 2 ELSE pp + 1
         ok == /\ pp <= N
               /\ \A k \in d0..(pp - 1) : k = pt \/ IsHex(s[k])
               /\ \E k \in d0..(pp - 1) : IsHex(s[k])
               /\ x0 <= N
               /\ \A k \in x0..N : IsDec(s[k])
     IN IF ~ok THEN <<"bad">>
        ELSE LET frac == IF haspt THEN pp - 1 - pt ELSE 0
                 n == IF haspt THEN Num(s, d0, pt - 1, 16) * 16^frac + Num(s, pt + 1, pp - 1, 16)
                      ELSE Num(s, d0, pp - 1, 16)
                 x == Num(s, x0, N, 10)
             IN <<"num", sg, n, (IF s[pp + 1] = 45 THEN -x ELSE x) - 4 * frac>>

(* Rounding n * 2^e.  A value below an eighth of the smallest datum rounds  *)
(* like that eighth; this keeps the numbers small for enormous exponents.   *)
RoundLit(f, mode, sg, n, e) ==
  IF n # 0 /\ BitLen(n) + e < f.qmin - 3
  THEN RoundX(f, mode, sg, 1, 1, f.qmin - 3)
  ELSE RoundX(f, mode, sg, n, 1, e)

StInexact == 16
StUnderflow == 8
StOverflow == 4
(* Flags: an inexact result below the smallest normal number underflows.    *)
ParseResult(f, mode, s) ==               \* <<error, bits, status>>, bits = NaN for a NaN
  LET p == Parse(s)
  IN CASE p[1] = "bad" -> <<1, 0, 0>>
       [] p[1] = "inf" -> <<0, Signed(f, p[2], f.inf), 0>>
       [] p[1] = "nan" -> <<0, NaN, 0>>
       [] p[1] = "num" ->
            LET x == RoundLit(f, mode, p[2], p[3], p[4])
                over == p[3] # 0 /\ (IsInf(f, x.bits) \/ BitLen(p[3]) + p[4] > f.bias + 1)
                under == x.inexact /\ Mag(f, x.bits) < f.hid
            IN <<0, x.bits, (IF x.inexact THEN StInexact ELSE 0)
                            + (IF over THEN StOverflow ELSE 0) + (IF under THEN StUnderflow ELSE 0)>>

(*************************** Canonical text ********************************)
HexChar(d) == IF d < 10 THEN 48 + d ELSE 87 + d
HexText(v, k) == [i \in 1..k |-> HexChar((v \div 16^(k - i)) % 16)]
RECURSIVE DecText(_)
DecText(n) == IF n < 10 THEN <<48 + n>> ELSE DecText(n \div 10) \o <<48 + (n % 10)>>
Text(f, b) ==
  LET sg  == <<IF SignOf(f, b) = 1 THEN 45 ELSE 43>>
      sb  == f.p - 1
      nd  == (sb + 3) \div 4
      fr  == Mag(f, b) % f.hid
      e   == Mag(f, b) \div f.hid
      ex  == (IF e = 0 THEN 1 ELSE e) - f.bias
      ox  == <<48, 120>>
  IN sg \o
     (CASE IsNaN(f, b) -> <<IF fr >= f.hid \div 2 THEN 113 ELSE 115, 78, 97, 78, 40>> \o ox
                          \o HexText(fr % (f.hid \div 2), nd) \o <<41>>
        [] IsInf(f, b) -> <<105, 110, 102>>
        [] IsZero(f, b) -> ox \o <<48, 112, 43, 48>>
        [] OTHER -> ox \o <<IF e = 0 THEN 48 ELSE 49, 46>> \o HexText(fr * 2^((-sb) % 4), nd)
                    \o <<112, IF ex < 0 THEN 45 ELSE 43>> \o DecText(Abs(ex)))
=============================================================================
