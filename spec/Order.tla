------------------------------- MODULE Order -------------------------------
(* The standard order of terms, and sorting.                                *)
EXTENDS Terms
CONSTANTS Chr,        \* character (one-character string) -> code
          FloatRank   \* text of a float -> its rank among the floats in use

Codes(a) == [i \in 1..Len(a) |-> Chr[SubSeq(a, i, i)]]
Sgn(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0

RECURSIVE CmpSeqFrom(_, _, _)
CmpSeqFrom(s, t, i) ==
  IF i > Len(s) THEN (IF i > Len(t) THEN 0 ELSE -1)
  ELSE IF i > Len(t) THEN 1
  ELSE IF s[i] = t[i] THEN CmpSeqFrom(s, t, i + 1) ELSE Sgn(s[i], t[i])
CmpAtom(x, y) == IF x = y THEN 0 ELSE CmpSeqFrom(Codes(x), Codes(y), 1)

(* Integers: small ones are TLC integers, others decimal texts.             *)
IsNeg(d) == SubSeq(d, 1, 1) = "-"
CmpDigits(x, y) == IF Len(x) # Len(y) THEN Sgn(Len(x), Len(y)) ELSE CmpSeqFrom(Codes(x), Codes(y), 1)
CmpBig(x, y) == IF IsNeg(x) # IsNeg(y) THEN (IF IsNeg(x) THEN -1 ELSE 1)
                ELSE IF IsNeg(x) THEN CmpDigits(y, x) ELSE CmpDigits(x, y)
CmpInt(x, y) == IF x[1] = "i" /\ y[1] = "i" THEN Sgn(x[2], y[2])
                ELSE IF x[1] = "I" /\ y[1] = "I" THEN CmpBig(x[2], y[2])
                ELSE IF x[1] = "I" THEN (IF IsNeg(x[2]) THEN -1 ELSE 1)
                ELSE (IF IsNeg(y[2]) THEN 1 ELSE -1)

Class(t) == CASE t[1] = "v" -> 0 [] t[1] = "f" -> 1 [] t[1] = "i" -> 2 [] t[1] = "I" -> 2
              [] t[1] = "a" -> 3 [] t[1] = "s" -> 4

(* d = -1 reverses the order of distinct variables, which is left to the    *)
(* implementation: a result that depends on d is not judged.                *)
RECURSIVE CmpV(_, _, _, _)
CmpV(x0, y0, b, d) ==
  LET x == Deref(x0, b)
      y == Deref(y0, b) IN
  IF x = y THEN 0
  ELSE IF Class(x) # Class(y) THEN Sgn(Class(x), Class(y))
  ELSE CASE x[1] = "v" -> d * Sgn(x[2], y[2])
         [] x[1] = "f" -> Sgn(FloatRank[x[2]], FloatRank[y[2]])
         [] IsInt(x) -> CmpInt(x, y)
         [] x[1] = "a" -> CmpAtom(x[2], y[2])
         [] OTHER ->
            IF Len(x[3]) # Len(y[3]) THEN Sgn(Len(x[3]), Len(y[3]))
            ELSE IF x[2] # y[2] THEN CmpAtom(x[2], y[2])
            ELSE FoldLeft(LAMBDA c, i : IF c # 0 THEN c ELSE CmpV(x[3][i], y[3][i], b, d), 0, [i \in 1..Len(x[3]) |-> i])
Cmp(x, y, b) == CmpV(x, y, b, 1)
ByVars(x, y, b) == Cmp(x, y, b) # CmpV(x, y, b, -1)

(* Stable insertion sort by a comparison of elements.                       *)
InsertBy(seq, x, C(_, _)) ==
  LET n == Cardinality({i \in 1..Len(seq) : C(seq[i], x) <= 0})
  IN SubSeq(seq, 1, n) \o <<x>> \o SubSeq(seq, n + 1, Len(seq))
SortBy(seq, C(_, _)) == FoldLeft(LAMBDA acc, x : InsertBy(acc, x, C), <<>>, seq)
MsortV(seq, b, d) == SortBy(seq, LAMBDA x, y : CmpV(x, y, b, d))
Msort(seq, b) == MsortV(seq, b, 1)
Dedup(seq, b) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ Cmp(acc[Len(acc)], x, b) = 0 THEN acc ELSE Append(acc, x), <<>>, seq)
Sort(seq, b) == Dedup(Msort(seq, b), b)
KeysortV(seq, b, d) == SortBy(seq, LAMBDA x, y : CmpV(x[3][1], y[3][1], b, d))   \* of K-V terms, dereferenced
Keysort(seq, b) == KeysortV(seq, b, 1)
SortOpen(seq, b) == Msort(seq, b) # MsortV(seq, b, -1)
KeysortOpen(seq, b) == Keysort(seq, b) # KeysortV(seq, b, -1)
=============================================================================
