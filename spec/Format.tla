-------------------------------- MODULE Format --------------------------------
(* format/2,3: the text of every directive, the layout of column boundaries  *)
(* and padding points, and the errors, as documented in the manual.          *)
(*                                                                           *)
(* A text is a sequence of character codes.  A term is <<"v",n>> variable,   *)
(* <<"n",neg,digits>> integer, <<"f",neg,digits,p>> float with the exact     *)
(* value 0.digits * 10^p, <<"a",codes>> atom, <<"l",elements,tail>> list or  *)
(* <<"s",codes,args>> other compound.  An argument is a record with the term *)
(* t and the texts that write/1 (w), writeq/1 (q), write_canonical/1 (k),    *)
(* print/1 (p) and write_term/2 with the next argument as options (o) give   *)
(* for it: ~w is documented as "pass the argument to write/1", and so on.    *)
(* An error is <<name, what, culprit>>.                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
NoT == <<"v", 0>>
NilT == <<"a", <<91, 93>>>>
Er(n, w, c) == <<n, w, c>>
InstE == Er("instantiation_error", "", NoT)
TypeE(w, c) == Er("type_error", w, c)
DomE(w, c) == Er("domain_error", w, c)
Rep(c, n) == [i \in 1..n |-> c]
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Str(ds) == [i \in 1..Len(ds) |-> ds[i] + 48]
RECURSIVE DigR(_)
DigR(n) == IF n < 10 THEN <<n>> ELSE DigR(n \div 10) \o <<(n % 10)>>
IntT(n) == <<"n", IF n < 0 THEN 1 ELSE 0, DigR(IF n < 0 THEN -n ELSE n)>>
Nat0(ds) == FoldLeft(LAMBDA a, d : a * 10 + d, 0, ds)
Num(t) == (IF t[2] = 1 THEN -1 ELSE 1) * Nat0(t[3])     \* of an integer term that fits
Small(t) == Len(t[3]) <= 9
IsText(l) == \A i \in 1..Len(l) : l[i] >= 0

(* ---- the layout of a line ----------------------------------------------- *)
(* out: text already placed; pos: its column; tab: the last column boundary; *)
(* seg: text (codes) and padding points (-1 - fill character) since then     *)
SegText(g) == SelectSeq(g, LAMBDA c : c >= 0)
Pads(g) == Len(g) - Len(SegText(g))
Fill(g, free) ==   \* the padding points of g filled with free characters, later ones first
  LET k == Pads(g)
      one(a, c) == IF c >= 0 THEN [a EXCEPT !.txt = Append(@, c)]
                   ELSE [n |-> a.n + 1, txt |-> a.txt \o Rep(-1 - c, (free \div k) + (IF a.n >= k - (free % k) THEN 1 ELSE 0))]
  IN FoldLeft(one, [n |-> 0, txt |-> <<>>], g).txt
Cur(L) == L.pos + Len(SegText(L.seg))
Put(L, x) ==       \* a newline forgets the boundaries and padding points of its line
  LET nl == {i \in 1..Len(x) : x[i] = 10} IN
  IF nl = {} THEN [L EXCEPT !.seg = @ \o x]
  ELSE LET m == CHOOSE i \in nl : \A j \in nl : j <= i IN
       [L EXCEPT !.out = @ \o SegText(L.seg) \o SubSeq(x, 1, m), !.pos = 0, !.tab = 0, !.seg = SubSeq(x, m + 1, Len(x))]
Bound(L, n) ==     \* column boundary at n
  LET free == Max2(0, n - Cur(L))
      txt == IF Pads(L.seg) = 0 THEN L.seg \o Rep(32, free) ELSE Fill(L.seg, free)
  IN [L EXCEPT !.out = @ \o txt, !.pos = @ + Len(txt), !.tab = n, !.seg = <<>>]
EndCall(L) == [L EXCEPT !.out = @ \o SegText(L.seg), !.pos = Cur(L), !.tab = 0, !.seg = <<>>]

(* ---- numbers ------------------------------------------------------------- *)
RECURSIVE Strip0(_)
Strip0(ds) == IF Len(ds) > 1 /\ ds[1] = 0 THEN Strip0(Tail(ds)) ELSE ds
DivMod(ds, n) ==   \* quotient (digits) and remainder of a digit sequence by a small number
  LET st(a, d) == LET v == a.r * 10 + d IN [q |-> Append(a.q, v \div n), r |-> v % n]
      e == FoldLeft(st, [q |-> <<>>, r |-> 0], ds)
  IN [q |-> Strip0(e.q), r |-> e.r]
RECURSIVE Radix(_, _)
Radix(ds, n) == LET d == DivMod(ds, n) IN IF d.q = <<0>> THEN <<d.r>> ELSE Append(Radix(d.q, n), d.r)
RadixText(ds, n, a) == LET r == Radix(ds, n) IN [i \in 1..Len(r) |-> IF r[i] < 10 THEN r[i] + 48 ELSE r[i] - 10 + a]
Inc(ds) ==         \* digits + 1, with one digit more when it carries out
  LET st(d, a) == IF a.c = 0 THEN [a EXCEPT !.ds = <<d>> \o @] ELSE IF d = 9 THEN [a EXCEPT !.ds = <<0>> \o @] ELSE [c |-> 0, ds |-> <<d + 1>> \o a.ds]
      e == FoldRight(st, ds, [c |-> 1, ds |-> <<>>])
  IN IF e.c = 1 THEN <<1>> \o e.ds ELSE e.ds
(* the first k digits of 0.ds rounded to nearest, ties to even; k or (carry) k+1 digits *)
Round(ds, k) ==
  IF k < 0 THEN <<>>
  ELSE IF k >= Len(ds) THEN ds \o Rep(0, k - Len(ds))
  ELSE LET h == SubSeq(ds, 1, k)
           more == \E i \in k + 2..Len(ds) : ds[i] # 0
           up == ds[k + 1] > 5 \/ (ds[k + 1] = 5 /\ (more \/ (k > 0 /\ (ds[k] % 2) = 1)))
       IN IF up THEN Inc(h) ELSE h
Fixed(ds, p, n) ==  \* printf %.nf of 0.ds * 10^p
  LET r == Round(ds, p + n)
      w == IF Len(r) < n + 1 THEN Rep(0, n + 1 - Len(r)) \o r ELSE r
      i == Len(w) - n
      hd == Strip0(SubSeq(w, 1, i))
  IN Str(hd) \o (IF n = 0 THEN <<>> ELSE <<46>> \o Str(SubSeq(w, i + 1, Len(w))))
ExpDig(ds, p, n) == \* the n+1 digits and the exponent of printf %.ne
  IF ds = <<0>> THEN [ds |-> Rep(0, n + 1), x |-> 0]
  ELSE LET r == Round(ds, n + 1) IN IF Len(r) > n + 1 THEN [ds |-> SubSeq(r, 1, n + 1), x |-> p] ELSE [ds |-> r, x |-> p - 1]
ExpText(x, up) == <<IF up THEN 69 ELSE 101, IF x < 0 THEN 45 ELSE 43>> \o (LET d == DigR(IF x < 0 THEN -x ELSE x) IN Str(IF Len(d) = 1 THEN <<0>> \o d ELSE d))
Mant(ds) == Str(<<ds[1]>>) \o (IF Len(ds) > 1 THEN <<46>> \o Str(Tail(ds)) ELSE <<>>)
Sci(ds, p, n, up) == LET e == ExpDig(ds, p, n) IN Mant(e.ds) \o ExpText(e.x, up)
RECURSIVE DropZ(_)
DropZ(t) == IF t # <<>> /\ Last(t) = 48 THEN DropZ(Front(t)) ELSE IF t # <<>> /\ Last(t) = 46 THEN Front(t) ELSE t
Gen(ds, p, n0, up) ==
  LET n == IF n0 = 0 THEN 1 ELSE n0
      e == ExpDig(ds, p, n - 1)
  IN IF e.x < n /\ e.x >= -4 THEN (LET f == Fixed(ds, p, n - 1 - e.x) IN IF n - 1 - e.x > 0 THEN DropZ(f) ELSE f)
     ELSE (LET m == Mant(e.ds) IN IF Len(e.ds) > 1 THEN DropZ(m) ELSE m) \o ExpText(e.x, up)
FloatOf(t) == IF t[1] = "f" THEN t ELSE <<"f", t[2], t[3], IF t[3] = <<0>> THEN 0 ELSE Len(t[3])>>
(* the text without its sign; n = -1: no precision *)
FloatText(t, c, n0) ==
  LET f == FloatOf(t) n == IF n0 < 0 THEN 6 ELSE n0 IN
  IF c \in {102, 70} THEN Fixed(f[3], f[4], n) ELSE IF c \in {101, 69} THEN Sci(f[3], f[4], n, c = 69) ELSE Gen(f[3], f[4], n, c = 71)

(* ---- evaluation of number arguments -------------------------------------- *)
Val(t) == [k |-> "n", t |-> t]
Err1(e) == [k |-> "err", e |-> {e}, t |-> NoT]
Ind(f, n) == <<"s", <<47>>, <<<<"a", f>>, IntT(n)>>>>
RECURSIVE Eval(_)
Eval(t) ==
  CASE t[1] = "v" -> Err1(InstE)
    [] t[1] \in {"n", "f"} -> Val(t)
    [] t[1] = "a" -> Err1(TypeE("evaluable", Ind(t[2], 0)))
    [] t[1] = "l" -> IF Len(t[2]) = 1 /\ t[3] = NilT /\ t[2][1][1] # "a" THEN Eval(t[2][1]) ELSE [k |-> "any", t |-> NoT, e |-> {}]
    [] OTHER ->
       IF Len(t[3]) = 2 /\ t[2] \in {<<43>>, <<45>>, <<42>>} THEN
         LET a == Eval(t[3][1]) b == Eval(t[3][2]) IN
         IF a.k = "err" THEN (IF b.k = "err" THEN [a EXCEPT !.e = @ \cup b.e] ELSE a) ELSE IF b.k = "err" THEN b
         ELSE IF a.k = "any" \/ b.k = "any" \/ a.t[1] = "f" \/ b.t[1] = "f" \/ Len(a.t[3]) > 4 \/ Len(b.t[3]) > 4 THEN [k |-> "any", t |-> NoT, e |-> {}]
         ELSE Val(IntT(CASE t[2] = <<43>> -> Num(a.t) + Num(b.t) [] t[2] = <<45>> -> Num(a.t) - Num(b.t) [] OTHER -> Num(a.t) * Num(b.t)))
       ELSE IF Len(t[3]) = 1 /\ t[2] = <<45>> THEN
         LET a == Eval(t[3][1]) IN IF a.k = "n" THEN Val(IF a.t[3] = <<0>> THEN a.t ELSE [a.t EXCEPT ![2] = 1 - @]) ELSE a
       ELSE Err1(TypeE("evaluable", Ind(t[2], Len(t[3]))))
EvalInt(t) == LET v == Eval(t) IN IF v.k = "n" /\ v.t[1] = "f" THEN Err1(TypeE("integer", v.t)) ELSE v

(* ---- texts given as atoms or lists --------------------------------------- *)
IsChar(x) == x[1] = "a" /\ Len(x[2]) = 1
IsCode(x) == x[1] = "n" /\ Small(x) /\ Num(x) \in 1..255
TextOf(t) ==
  CASE t[1] = "v" -> Err1(InstE)
    [] t = NilT -> [k |-> "txt", txt |-> <<>>, e |-> {}]
    [] t[1] = "a" -> [k |-> "txt", txt |-> t[2], e |-> {}]
    [] t[1] # "l" -> Err1(TypeE("list", t))
    [] OTHER ->
       LET q == t[2]
           bad == (IF t[3][1] = "v" \/ \E i \in 1..Len(q) : q[i][1] = "v" THEN {InstE} ELSE {})
                  \cup (IF t[3][1] # "v" /\ t[3] # NilT THEN {TypeE("list", t)} ELSE {})
                  \cup (IF (\A i \in 1..Len(q) : IsChar(q[i])) \/ (\A i \in 1..Len(q) : IsCode(q[i])) THEN {}
                        ELSE {TypeE("character", q[i]) : i \in 1..Len(q)} \cup {TypeE("integer", q[i]) : i \in 1..Len(q)} \cup {Er("representation_error", "character_code", NoT)})
       IN IF bad # {} THEN [k |-> "err", e |-> bad, t |-> NoT]
          ELSE [k |-> "txt", e |-> {}, txt |-> [i \in 1..Len(q) |-> IF IsChar(q[i]) THEN q[i][2][1] ELSE Num(q[i])]]

(* ---- directives ----------------------------------------------------------- *)
Sign(t) == IF t[2] = 1 THEN <<45>> ELSE <<>>
PadR(x, n) == x \o Rep(32, Max2(0, n - Len(x)))
PadL(x, n) == Rep(32, Max2(0, n - Len(x))) \o x
Groups(x) ==        \* commas between groups of three digits
  LET m == Len(x) IN FlattenSeq([i \in 1..m |-> (IF i > 1 /\ ((m - i + 1) % 3) = 0 THEN <<44>> ELSE <<>>) \o <<x[i]>>])
Decimal(t, n, grp) ==
  LET ds == IF Len(t[3]) <= n THEN Rep(0, n + 1 - Len(t[3])) \o t[3] ELSE t[3]
      i == Len(ds) - n
      hd == Str(SubSeq(ds, 1, i))
  IN Sign(t) \o (IF grp THEN Groups(hd) ELSE hd) \o (IF n = 0 THEN <<>> ELSE <<46>> \o Str(SubSeq(ds, i + 1, Len(ds))))

(* C printf: f flags (set of codes), w width, p precision (-1: none)          *)
PrintfNum(f, w, p, sgn, pre, dg, isInt) ==
  LET body == IF isInt THEN (IF p = 0 /\ dg = <<48>> THEN <<>> ELSE Rep(48, Max2(0, p - Len(dg))) \o dg) ELSE dg
      s == IF sgn = 1 THEN <<45>> ELSE IF 43 \in f THEN <<43>> ELSE IF 32 \in f THEN <<32>> ELSE <<>>
      all == s \o pre \o body
  IN IF 45 \in f THEN PadR(all, w)
     ELSE IF 48 \in f /\ ~(isInt /\ p >= 0) THEN s \o pre \o Rep(48, Max2(0, w - Len(all))) \o body
     ELSE PadL(all, w)
PrintfStr(f, w, p, x) == LET y == IF p >= 0 THEN SubSeq(x, 1, Min2(p, Len(x))) ELSE x IN IF 45 \in f THEN PadR(y, w) ELSE PadL(y, w)
PrintfConv(c, f, w, p, t) ==     \* text or error of one conversion
  IF c = 115 THEN LET x == TextOf(t) IN IF x.k = "txt" THEN [k |-> "txt", txt |-> PrintfStr(f, w, p, x.txt), e |-> {}] ELSE x
  ELSE IF c \in {101, 69, 102, 70, 103, 71} THEN
    LET v == Eval(t) IN
    IF v.k # "n" THEN v ELSE [k |-> "txt", e |-> {}, txt |-> PrintfNum(f, w, p, v.t[2], <<>>, FloatText(v.t, c, p), FALSE)]
  ELSE LET v == EvalInt(t) IN
    IF v.k # "n" THEN v
    ELSE IF c = 99 THEN (IF Small(v.t) /\ Num(v.t) \in 1..255 THEN [k |-> "txt", e |-> {}, txt |-> PrintfStr(f, w, -1, <<Num(v.t)>>)] ELSE [k |-> "any", t |-> NoT, e |-> {}])
    ELSE IF c \in {100, 105} THEN [k |-> "txt", e |-> {}, txt |-> PrintfNum(f, w, p, v.t[2], <<>>, Str(v.t[3]), TRUE)]
    ELSE IF v.t[2] = 1 \/ c = 112 THEN [k |-> "any", t |-> NoT, e |-> {}]
    ELSE LET g == f \ {43, 32} IN
         [k |-> "txt", e |-> {}, txt |->
           CASE c = 117 -> PrintfNum(g, w, p, 0, <<>>, Str(v.t[3]), TRUE)
             [] c = 111 -> LET d == RadixText(v.t[3], 8, 97) IN PrintfNum(g, w, p, 0, <<>>, IF 35 \in f /\ p <= Len(d) /\ d # <<48>> THEN <<48>> \o d ELSE d, TRUE)
             [] OTHER -> PrintfNum(g, w, p, 0, IF 35 \in f /\ v.t[3] # <<0>> THEN <<48, c>> ELSE <<>>, RadixText(v.t[3], 16, IF c = 120 THEN 97 ELSE 65), TRUE)]
Convs == {100, 105, 111, 117, 120, 88, 112, 99, 115, 97, 65, 101, 69, 102, 70, 103, 71}
(* x: the sequence between ~ and the conversion, without the leading %; st: the values of its stars *)
RECURSIVE Flags(_, _)
Flags(x, i) == IF i <= Len(x) /\ x[i] \in {45, 43, 32, 48, 35} THEN Flags(x, i + 1) ELSE i
RECURSIVE DigitsTo(_, _)
DigitsTo(x, i) == IF i <= Len(x) /\ x[i] \in 48..57 THEN DigitsTo(x, i + 1) ELSE i
CodesNum(x) == FoldLeft(LAMBDA a, c : a * 10 + c - 48, 0, x)
Spec0(x, st) ==     \* flags, width and precision
  LET i == Flags(x, 1)
      star == i <= Len(x) /\ x[i] = 42
      j == IF star THEN i + 1 ELSE DigitsTo(x, i)
      w0 == IF star THEN st[1] ELSE CodesNum(SubSeq(x, i, j - 1))
      f0 == {x[m] : m \in 1..i - 1}
      dot == j <= Len(x) /\ x[j] = 46
      pst == dot /\ j < Len(x) /\ x[j + 1] = 42
      m == IF ~dot THEN j ELSE IF pst THEN j + 2 ELSE DigitsTo(x, j + 1)
      p0 == IF ~dot THEN -1 ELSE IF pst THEN st[IF star THEN 2 ELSE 1] ELSE CodesNum(SubSeq(x, j + 1, m - 1))
  IN [f |-> f0 \cup (IF w0 < 0 THEN {45} ELSE {}), w |-> IF w0 < 0 THEN -w0 ELSE w0, p |-> IF p0 < 0 THEN -1 ELSE p0, ok |-> m = Len(x) + 1]
=============================================================================
