------------------------------- MODULE Arith -------------------------------
(* Exact integers of any size, and the evaluation of integer expressions    *)
(* with the bounds of the implementation (61-bit integers).                 *)
(* A big integer is [s |-> negative?, m |-> magnitude], the magnitude being *)
(* a little-endian sequence of limbs in base 4096 without leading zeros.    *)
EXTENDS Order, Bitwise

B == 4096
(* ---- magnitudes -------------------------------------------------------- *)
RECURSIVE Trim(_)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x
Limb(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
Idx(n) == [i \in 1..n |-> i]
MaxLen(x, y) == IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)
RECURSIVE CmpMFrom(_, _, _)
CmpMFrom(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] # y[i] THEN Sgn(x[i], y[i]) ELSE CmpMFrom(x, y, i - 1)
CmpM(x, y) == IF Len(x) # Len(y) THEN Sgn(Len(x), Len(y)) ELSE CmpMFrom(x, y, Len(x))
AddM(x, y) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == Limb(x, i) + Limb(y, i) + acc[2] IN <<Append(acc[1], t % B), t \div B>>,
                    <<<<>>, 0>>, Idx(MaxLen(x, y)))
  IN Trim(Append(r[1], r[2]))
SubM(x, y) ==                                   \* x >= y
  LET r == FoldLeft(LAMBDA acc, i : LET t == Limb(x, i) - Limb(y, i) - acc[2] IN
                                    IF t < 0 THEN <<Append(acc[1], t + B), 1>> ELSE <<Append(acc[1], t), 0>>,
                    <<<<>>, 0>>, Idx(Len(x)))
  IN Trim(r[1])
MulS(x, d, c) ==                                \* x * d + c, 0 <= c, d <= B
  LET r == FoldLeft(LAMBDA acc, i : LET t == x[i] * d + acc[2] IN <<Append(acc[1], t % B), t \div B>>, <<<<>>, c>>, Idx(Len(x)))
  IN Trim(r[1] \o <<r[2] % B, r[2] \div B>>)
Zeros(n) == [i \in 1..n |-> 0]
ShiftL(x, n) == IF x = <<>> THEN x ELSE Zeros(n) \o x
MulM(x, y) == FoldLeft(LAMBDA acc, i : AddM(acc, ShiftL(MulS(x, y[i], 0), i - 1)), <<>>, Idx(Len(y)))
Rev(n) == [i \in 1..n |-> n + 1 - i]
DivS(x, d) ==                                   \* <<quotient, remainder>> by a small divisor
  LET r == FoldLeft(LAMBDA acc, i : LET t == acc[2] * B + x[i] IN <<<<t \div d>> \o acc[1], t % d>>, <<<<>>, 0>>, Rev(Len(x)))
  IN <<Trim(r[1]), r[2]>>
RECURSIVE QDigit(_, _, _, _)                    \* the largest d with d * y <= x, lo <= d < hi
QDigit(x, y, lo, hi) == IF hi - lo = 1 THEN lo
                        ELSE LET mid == (lo + hi) \div 2 IN
                             IF CmpM(MulS(y, mid, 0), x) <= 0 THEN QDigit(x, y, mid, hi) ELSE QDigit(x, y, lo, mid)
DivM(x, y) ==                                   \* <<quotient, remainder>>
  IF CmpM(x, y) < 0 THEN <<<<>>, x>>
  ELSE IF Len(y) = 1 THEN LET r == DivS(x, y[1]) IN <<r[1], IF r[2] = 0 THEN <<>> ELSE <<r[2]>>>>
  ELSE LET r == FoldLeft(LAMBDA acc, i : LET t == Trim(<<x[i]>> \o acc[2])
                                             d == QDigit(t, y, 0, B)
                                         IN <<<<d>> \o acc[1], SubM(t, MulS(y, d, 0))>>, <<<<>>, <<>>>>, Rev(Len(x)))
       IN <<Trim(r[1]), r[2]>>
RECURSIVE GcdM(_, _)
GcdM(x, y) == IF y = <<>> THEN x ELSE GcdM(y, DivM(x, y)[2])
RECURSIVE Pow2(_)
Pow2(n) == IF n >= 12 THEN <<0>> \o Pow2(n - 12) ELSE <<2^n>>
(* ---- signed ------------------------------------------------------------ *)
Mk(s, m) == [s |-> s /\ m # <<>>, m |-> m]
ZeroB == Mk(FALSE, <<>>)
OneB == Mk(FALSE, <<1>>)
NegB(x) == Mk(~x.s, x.m)
Add(x, y) == IF x.s = y.s THEN Mk(x.s, AddM(x.m, y.m))
             ELSE IF CmpM(x.m, y.m) >= 0 THEN Mk(x.s, SubM(x.m, y.m)) ELSE Mk(y.s, SubM(y.m, x.m))
Sub(x, y) == Add(x, NegB(y))
Mul(x, y) == Mk(x.s # y.s, MulM(x.m, y.m))
CmpB(x, y) == IF x.s # y.s THEN (IF x.s THEN -1 ELSE 1) ELSE IF x.s THEN CmpM(y.m, x.m) ELSE CmpM(x.m, y.m)
TDivB(x, y) == Mk(x.s # y.s, DivM(x.m, y.m)[1])                             \* truncating
RemB(x, y) == Mk(x.s, DivM(x.m, y.m)[2])
FDivB(x, y) == LET d == DivM(x.m, y.m) IN                                   \* flooring
               IF x.s = y.s \/ d[2] = <<>> THEN Mk(x.s # y.s, d[1]) ELSE Mk(TRUE, AddM(d[1], <<1>>))
ModB(x, y) == Sub(x, Mul(y, FDivB(x, y)))
(* two's complement on n limbs *)
TwoC(x, n) == IF ~x.s THEN [i \in 1..n |-> Limb(x.m, i)]
              ELSE LET y == SubM(x.m, <<1>>) IN [i \in 1..n |-> B - 1 - Limb(y, i)]
OfTwoC(l) == IF l[Len(l)] < B \div 2 THEN Mk(FALSE, Trim(l))
             ELSE Mk(TRUE, AddM(Trim([i \in 1..Len(l) |-> B - 1 - l[i]]), <<1>>))
NotB(x) == Sub(NegB(x), OneB)
BitB(f, x, y) == LET n == MaxLen(x.m, y.m) + 1
                     u == TwoC(x, n) v == TwoC(y, n)
                 IN OfTwoC([i \in 1..n |-> IF f = "/\\" THEN u[i] & v[i] ELSE IF f = "\\/" THEN u[i] | v[i] ELSE u[i] ^^ v[i]])
BitAt(x, n) == (Limb(x.m, (n \div 12) + 1) \div (2^(n % 12))) % 2           \* x >= 0
Bits(x) == {n \in 0..(12 * Len(x.m)) : BitAt(x, n) = 1}
(* ---- the integers of the implementation -------------------------------- *)
MinB == Mk(TRUE, <<0, 0, 0, 0, 0, 1>>)
Fits(x) == Len(x.m) <= 5 \/ x = MinB
DigitVal == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
  CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
    [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
DigitChr == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
OfText(d) == LET neg == SubSeq(d, 1, 1) = "-"
                 i0 == IF neg THEN 2 ELSE 1
             IN Mk(neg, FoldLeft(LAMBDA acc, i : MulS(acc, 10, DigitVal[SubSeq(d, i, i)]), <<>>, [i \in 1..(Len(d) - i0 + 1) |-> i + i0 - 1]))
RECURSIVE TextM(_)
TextM(x) == IF x = <<>> THEN "" ELSE LET r == DivS(x, 10) IN TextM(r[1]) \o DigitChr[r[2] + 1]
RECURSIVE OfSmallM(_)
OfSmallM(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o OfSmallM(n \div B)
OfSmall(n) == Mk(n < 0, OfSmallM(IF n < 0 THEN -n ELSE n))
Big(t) == IF t[1] = "i" THEN OfSmall(t[2]) ELSE OfText(t[2])               \* the value of an integer term
ToTerm(x) == IF Len(x.m) <= 2 \/ (Len(x.m) = 3 /\ x.m[3] < 64)              \* below 2^30
             THEN LET v == Limb(x.m, 1) + B * Limb(x.m, 2) + B * B * Limb(x.m, 3) IN I(IF x.s THEN -v ELSE v)
             ELSE <<"I", (IF x.s THEN "-" ELSE "") \o TextM(x.m)>>
=============================================================================
