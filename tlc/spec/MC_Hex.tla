------------------------------- MODULE MC_Hex -------------------------------
(***************************************************************************)
(* Checks the grammar and the rounding of HexFloat.tla: texts grow by one  *)
(* character at a time, from nothing and from "0x"; in every state the     *)
(* laws below hold for the text so far, in a small format.                 *)
(***************************************************************************)
EXTENDS HexFloat, FiniteSets, TLC
CONSTANTS EW, P, MaxLen

f == MkFmt(EW, P)
VARIABLES s, k
vars == <<s, k>>
Alphabet == {48, 49, 56, 102, 46, 112, 45, 120}       \* 0 1 8 f . p - x
OX == <<48, 120>>
Init == s \in {<<>>, OX} /\ k = 0
Next == /\ k < MaxLen
        /\ k' = k + 1
        /\ \E c \in Alphabet : s' = Append(s, c)
Spec == Init /\ [][Next]_vars

R(m) == ParseResult(f, m, s)
Good == Parse(s)[1] # "bad"
IsNum == Parse(s)[1] = "num"
Bit(st, b) == (st \div b) % 2 = 1

ErrorsAgree == \A m \in {"N", "D", "U", "Z"} : (R(m)[1] = 1) = ~Good
Bracket == IsNum =>
  LET d == Ord(f, R("D")[2])
      u == Ord(f, R("U")[2])
      n == Ord(f, R("N")[2])
      z == Ord(f, R("Z")[2])
  IN /\ d <= n /\ n <= u /\ u - d <= 1
     /\ n \in {d, u}
     /\ z = IF Parse(s)[2] = 1 THEN u ELSE d
     /\ (d = u) = ~Bit(R("N")[3], 16)
Negated == LET t == IF s # <<>> /\ s[1] = 45 THEN SubSeq(s, 2, Len(s)) ELSE <<45>> \o s
           IN IsNum /\ Parse(t)[1] = "num" =>
              /\ ParseResult(f, "D", t)[2] = Neg(f, R("U")[2])
              /\ ParseResult(f, "N", t)[2] = Neg(f, R("N")[2])
              /\ ParseResult(f, "D", t)[3] = R("U")[3]
\* a leading zero digit and a trailing zero of the exponent's front change nothing
LeadingZero == Len(s) >= 2 /\ SubSeq(s, 1, 2) = OX =>
  LET t == OX \o <<48>> \o SubSeq(s, 3, Len(s))
  IN IsNum => Parse(t) = Parse(s)
\* the exact value, compared with the nearest datum independently of RoundX
Nearest == IsNum /\ IsFin(f, R("N")[2]) /\ Abs(Parse(s)[4]) < 40 =>
  LET p  == Parse(s)
      sc == 60                             \* everything in units of 2^-60
      v  == p[3] * 2^(p[4] + sc)
      Val(b) == Sig(f, b) * 2^(Expo(f, b) + sc)
      x  == Mag(f, R("N")[2])
  IN \A b \in 0..(f.inf - 1) : Abs(v - Val(x)) <= Abs(v - Val(b))
Flags == IsNum => \A m \in {"N", "D", "U", "Z"} :
  /\ Bit(R(m)[3], 4) => Bit(R(m)[3], 16)
  /\ Bit(R(m)[3], 8) => Bit(R(m)[3], 16)
  /\ ~(Bit(R(m)[3], 4) /\ Bit(R(m)[3], 8))
RoundTrip == IsNum => \A m \in {"N", "U"} :
  LET b == R(m)[2] IN /\ ParseResult(f, "N", Text(f, b)) = <<0, b, 0>>
=============================================================================
