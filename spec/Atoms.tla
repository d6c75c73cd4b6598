------------------------------- MODULE Atoms -------------------------------
(* Atom and character built-ins as relations.  A built-in first collects    *)
(* the errors that apply to its arguments; when there is exactly one, it is *)
(* raised (the choice among several is left open); otherwise the answers    *)
(* are the tuples of the relation, in the documented order, that unify with *)
(* the arguments.                                                           *)
EXTENDS Gvar

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharOf(c) == IF c = 10 THEN "\n" ELSE IF c = 9 THEN "\t" ELSE SubSeq(Printable, c - 31, c - 31)
CodeTable == [ch \in {CharOf(c) : c \in 32..126 \cup {9, 10}} |-> CHOOSE cc \in 32..126 \cup {9, 10} : CharOf(cc) = ch]
CharAt(s, i) == SubSeq(s, i, i)
IsAscii(s) == LET T == DOMAIN CodeTable IN \A i \in 1..Len(s) : CharAt(s, i) \in T
CharsOf(s) == [i \in 1..Len(s) |-> CharAt(s, i)]
CharList(s) == MkList([i \in 1..Len(s) |-> A(CharAt(s, i))])
CodeList(s) == LET T == CodeTable IN MkList([i \in 1..Len(s) |-> I(T[CharAt(s, i)])])
Join(seq) == FoldLeft(LAMBDA acc, c : acc \o c, "", seq)
IsDigit(c) == c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsAlpha(c) == LET T == CodeTable IN c \in DOMAIN T /\ LET n == T[c] IN (n >= 65 /\ n <= 90) \/ (n >= 97 /\ n <= 122)
Up(c) == LET n == CodeTable[c] IN IF n >= 97 /\ n <= 122 THEN CharOf(n - 32) ELSE c
Low(c) == LET n == CodeTable[c] IN IF n >= 65 /\ n <= 90 THEN CharOf(n + 32) ELSE c

(* errs: a set of errors; yes: the result when it is empty *)
Checked(errs, yes) ==
  IF errs = {} THEN yes
  ELSE IF Cardinality(errs) > 1 THEN SkipR("order_of_errors")
  ELSE Err(CHOOSE e \in errs : TRUE)
AtomOrVar(t) == IF IsV(t) \/ IsA(t) THEN {} ELSE {TypeErr("atom", t)}
NeedAtom(t) == IF IsV(t) THEN {InstErr} ELSE AtomOrVar(t)
IntOrVar(t) == IF IsV(t) \/ IsInt(t) THEN {} ELSE {TypeErr("integer", t)}
Neg(t) == (t[1] = "i" /\ t[2] < 0) \/ (t[1] = "I" /\ IsNeg(t[2]))
PosOrVar(t) == IntOrVar(t) \cup (IF IsInt(t) /\ Neg(t) THEN {DomErr("not_less_than_zero", t)} ELSE {})
IsChar(t) == IsA(t) /\ Len(t[2]) = 1
CharOrVar(t) == IF IsV(t) \/ IsChar(t) THEN {} ELSE {TypeErr("character", t)}
CodeOk(t) == t[1] = "i" /\ t[2] >= 0 /\ t[2] <= 255
CodeOrVar(t) == IF IsV(t) THEN {} ELSE IF ~IsInt(t) THEN {TypeErr("integer", t)}
                ELSE IF CodeOk(t) THEN {} ELSE {RepErr("character_code")}
(* codes that the model can name *)
Named(t) == t[1] # "i" \/ t[2] \in 32..126 \cup {9, 10} \/ ~CodeOk(t)
Open(t) == (IsA(t) /\ ~IsAscii(t[2])) \/ ~Named(t)

One(m, x, y) == Uni(m, x, y)
Sols(m, pat, sols) == [st |-> "sols", pat |-> pat, sols |-> sols, b |-> m.b]

AtomLength(m, a, n) ==
  IF Open(a) THEN SkipR("nonascii")
  ELSE Checked(NeedAtom(a) \cup PosOrVar(n), Uni(m, n, I(Len(a[2]))))

AtomConcat(m, x, y, z) ==
  IF \E t \in {x, y, z} : Open(t) THEN SkipR("nonascii")
  ELSE Checked(AtomOrVar(x) \cup AtomOrVar(y) \cup AtomOrVar(z) \cup (IF IsV(z) /\ (IsV(x) \/ IsV(y)) THEN {InstErr} ELSE {}),
     IF IsA(x) /\ IsA(y) THEN Uni(m, z, A(x[2] \o y[2]))
     ELSE IF IsA(x)
     THEN LET k == Len(x[2]) n == Len(z[2]) IN IF k <= n /\ SubSeq(z[2], 1, k) = x[2] THEN Uni(m, y, A(SubSeq(z[2], k + 1, n))) ELSE No
     ELSE IF IsA(y)
     THEN LET k == Len(y[2]) n == Len(z[2]) IN IF k <= n /\ SubSeq(z[2], n - k + 1, n) = y[2] THEN Uni(m, x, A(SubSeq(z[2], 1, n - k))) ELSE No
     ELSE LET s == z[2]
              cut == [i \in 1..Len(s) + 1 |-> S("-", <<A(SubSeq(s, 1, i - 1)), A(SubSeq(s, i, Len(s)))>>)]
          IN Sols(m, S("-", <<x, y>>), cut))

SubAtom(m, a, bf, ln, af, sub) ==
  IF Open(a) \/ Open(sub) THEN SkipR("nonascii")
  ELSE Checked(NeedAtom(a) \cup PosOrVar(bf) \cup PosOrVar(ln) \cup PosOrVar(af) \cup AtomOrVar(sub),
     LET s == a[2] n == Len(s)
         Given(t) == t[1] \in {"i", "I"}
         Num(t) == IF t[1] = "i" THEN t[2] ELSE n + 1          \* a big integer is beyond any atom
         Upto(v, hi) == IF v >= 0 /\ v <= hi THEN <<v>> ELSE <<>>
         bs == IF Given(bf) THEN Upto(Num(bf), n)
               ELSE IF Given(ln) /\ Given(af) THEN (IF Num(ln) > n \/ Num(af) > n THEN <<>> ELSE Upto(n - Num(ln) - Num(af), n))
               ELSE [i \in 1..n + 1 |-> i - 1]
         Ls(bb) == IF Given(ln) THEN Upto(Num(ln), n - bb)
                   ELSE IF Given(af) THEN (IF Num(af) > n THEN <<>> ELSE Upto(n - bb - Num(af), n - bb))
                   ELSE IF IsA(sub) THEN Upto(Len(sub[2]), n - bb)
                   ELSE [l \in 1..n - bb + 1 |-> l - 1]
         at == IF Len(bs) > 1000 /\ IsA(sub)
               THEN LET k == Len(sub[2]) hit == SelectSeq(bs, LAMBDA bb : bb + k <= n /\ SubSeq(s, bb + 1, bb + k) = sub[2])
                    IN [i \in 1..Len(hit) |-> <<hit[i], k>>]
               ELSE FoldLeft(LAMBDA acc, bb : acc \o [l \in 1..Len(Ls(bb)) |-> <<bb, Ls(bb)[l]>>], <<>>, bs)
     IN Sols(m, S("s", <<bf, ln, af, sub>>),
             [i \in 1..Len(at) |-> S("s", <<I(at[i][1]), I(at[i][2]), I(n - at[i][1] - at[i][2]), A(SubSeq(s, at[i][1] + 1, at[i][1] + at[i][2]))>>)]))

CharCode(m, x, y) ==
  IF Open(x) \/ Open(y) THEN SkipR("nonascii")
  ELSE Checked(CharOrVar(x) \cup CodeOrVar(y) \cup (IF IsV(x) /\ IsV(y) THEN {InstErr} ELSE {}),
     IF IsA(x) THEN Uni(m, y, I(CodeTable[x[2]])) ELSE Uni(m, x, A(CharOf(y[2]))))

LowerUpper(m, x, y) ==
  IF Open(x) \/ Open(y) THEN SkipR("nonascii")
  ELSE Checked(CharOrVar(x) \cup CharOrVar(y) \cup (IF IsV(x) /\ IsV(y) THEN {InstErr} ELSE {}),
     IF IsA(x) THEN Uni(m, y, A(Up(x[2]))) ELSE Uni(m, x, A(Low(y[2]))))

(* A list of characters or codes: its errors as a text being read (must be  *)
(* instantiated) or as a result (may be partial), and its text.             *)
ElErr(t, codes) == IF codes THEN CodeOrVar(t) ELSE CharOrVar(t)
TextErrs(l, b, codes, need) ==
  LET r == AsList(l, b)
      its == [i \in 1..Len(r.items) |-> Deref(r.items[i], b)]
  IN UNION {ElErr(its[i], codes) : i \in 1..Len(its)}
     \cup (IF r.kind = "no" THEN {TypeErr("list", Deref(l, b))} ELSE {})
     \cup (IF need /\ (r.kind = "partial" \/ \E i \in 1..Len(its) : IsV(its[i])) THEN {InstErr} ELSE {})
TextOpen(l, b) == LET r == AsList(l, b) IN \E i \in 1..Len(r.items) : Open(Deref(r.items[i], b))
TextOf(l, b, codes) ==
  LET r == AsList(l, b)
  IN Join([i \in 1..Len(r.items) |-> LET t == Deref(r.items[i], b) IN IF codes THEN CharOf(t[2]) ELSE t[2]])
TextList(s, codes) == IF codes THEN CodeList(s) ELSE CharList(s)

(* error terms name the list with its variables *)
AtomText(m, a, l, codes) ==
  IF Open(a) \/ TextOpen(l, m.b) THEN SkipR("nonascii")
  ELSE IF IsV(a) THEN Checked(TextErrs(l, m.b, codes, TRUE), Uni(m, a, A(TextOf(l, m.b, codes))))
  ELSE Checked(AtomOrVar(a) \cup TextErrs(l, m.b, codes, FALSE), Uni(m, l, TextList(a[2], codes)))

(* The number a text denotes: [k |-> "num", t], [k |-> "bad"], or           *)
(* [k |-> "open"] for syntax the model does not cover.                      *)
RECURSIVE SkipB(_, _)
SkipB(s, i) == IF i <= Len(s) /\ CharAt(s, i) \in {" ", "\n", "\t"} THEN SkipB(s, i + 1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(CharAt(s, i)) THEN DigitsEnd(s, i + 1) ELSE i
RECURSIVE Strip0(_)
Strip0(d) == IF Len(d) > 1 /\ CharAt(d, 1) = "0" THEN Strip0(SubSeq(d, 2, Len(d))) ELSE d
RECURSIVE Val(_, _)
Val(d, i) == IF i > Len(d) THEN 0 ELSE LET T == CodeTable IN FoldLeft(LAMBDA acc, j : acc * 10 + T[CharAt(d, j)] - 48, 0, [j \in 1..Len(d) |-> j])
IntText(neg, d0) ==
  LET d == Strip0(d0) IN
  IF Len(d) <= 9 THEN [k |-> "num", t |-> I(IF neg THEN -Val(d, 1) ELSE Val(d, 1))]
  ELSE IF Len(d) <= 18 THEN (IF Len(d) = 10 /\ CmpDigits(d, "1073741824") < 0 THEN [k |-> "num", t |-> I(IF neg THEN -Val(d, 1) ELSE Val(d, 1))]
                             ELSE [k |-> "num", t |-> <<"I", (IF neg THEN "-" ELSE "") \o d>>])
  ELSE [k |-> "open"]
Number_(s) ==
  LET i0 == SkipB(s, 1)
      neg == i0 <= Len(s) /\ CharAt(s, i0) = "-"
      i == IF neg THEN i0 + 1 ELSE i0
      j == DigitsEnd(s, i)
      core == SubSeq(s, IF neg THEN i0 ELSE i, Len(s))
  IN IF i > Len(s) THEN [k |-> "bad"]
     ELSE IF core \in DOMAIN FloatRank THEN [k |-> "num", t |-> <<"f", core>>]
     ELSE IF j = i THEN (IF IsAlpha(CharAt(s, i)) \/ CharAt(s, i) \in {"_", "(", ")", "[", ",", "|", "{", "*", "a", "."} THEN [k |-> "bad"] ELSE [k |-> "open"])
     ELSE IF j > Len(s) THEN IntText(neg, SubSeq(s, i, Len(s)))
     ELSE IF CharAt(s, j) \in {" ", "\n", ",", ")", "-", "_", "g", "z", "A", "*"} THEN [k |-> "bad"]
     ELSE [k |-> "open"]
SyntaxErr == S("syntax_error", <<A("$ctx")>>)
NumOrVar(t) == IF IsV(t) \/ IsNum(t) THEN {} ELSE {TypeErr("number", t)}
NumText(t) == IF t[1] = "i" THEN ToString(t[2]) ELSE t[2]
Parse(m, s, n) ==
  LET r == Number_(s) IN
  IF r.k = "open" THEN SkipR("number_syntax")
  ELSE Checked(NumOrVar(n) \cup (IF r.k = "bad" THEN {SyntaxErr} ELSE {}), Uni(m, n, r.t))

NumberText(m, n, l, codes) ==
  LET r == AsList(l, m.b) IN
  IF TextOpen(l, m.b) \/ Open(n) THEN SkipR("nonascii")
  ELSE IF TextErrs(l, m.b, codes, TRUE) = {} THEN Parse(m, TextOf(l, m.b, codes), n)
  ELSE IF IsV(n) THEN Checked(TextErrs(l, m.b, codes, TRUE), No)
  ELSE Checked(NumOrVar(n) \cup TextErrs(l, m.b, codes, FALSE), Uni(m, l, TextList(NumText(n), codes)))

NumberAtom(m, n, a) ==
  IF Open(a) \/ Open(n) THEN SkipR("nonascii")
  ELSE IF IsA(a) THEN Parse(m, a[2], n)
  ELSE IF IsV(n) THEN Checked({InstErr} \cup AtomOrVar(a), No)
  ELSE Checked(AtomOrVar(a) \cup NumOrVar(n), Uni(m, a, A(NumText(n))))

Name(m, a, l) ==
  IF Open(a) \/ TextOpen(l, m.b) THEN SkipR("nonascii")
  ELSE IF IsV(a) THEN
     Checked(TextErrs(l, m.b, TRUE, TRUE),
        LET s == TextOf(l, m.b, TRUE) r == Number_(s) IN
        IF r.k = "open" THEN SkipR("number_syntax") ELSE Uni(m, a, IF r.k = "num" THEN r.t ELSE A(s)))
  ELSE IF IsS(a) THEN Checked({TypeErr("atomic", a)} \cup TextErrs(l, m.b, TRUE, FALSE), No)
  ELSE IF IsA(a) THEN AtomText(m, a, l, TRUE)
  ELSE NumberText(m, a, l, TRUE)

AtomKeys == {<<f, 2>> : f \in {"atom_length", "char_code", "atom_chars", "atom_codes", "number_chars", "number_codes", "number_atom", "name", "lower_upper"}}
            \cup {<<"atom_concat", 3>>, <<"sub_atom", 5>>, <<"x_atoms", 1>>}

AtomDet(key, as0, m) ==
  LET f == key[1]
      as == [i \in 1..Len(as0) |-> Deref(as0[i], m.b)] IN
  CASE f = "atom_length" -> AtomLength(m, as[1], as[2])
    [] f = "atom_concat" -> AtomConcat(m, as[1], as[2], as[3])
    [] f = "sub_atom" -> SubAtom(m, as[1], as[2], as[3], as[4], as[5])
    [] f = "char_code" -> CharCode(m, as[1], as[2])
    [] f = "lower_upper" -> LowerUpper(m, as[1], as[2])
    [] f = "atom_chars" -> AtomText(m, as[1], as[2], FALSE)
    [] f = "atom_codes" -> AtomText(m, as[1], as[2], TRUE)
    [] f = "number_chars" -> NumberText(m, as[1], as[2], FALSE)
    [] f = "number_codes" -> NumberText(m, as[1], as[2], TRUE)
    [] f = "number_atom" -> NumberAtom(m, as[1], as[2])
    [] f = "name" -> Name(m, as[1], as[2])
    [] f = "x_atoms" -> Ok(m)                      \* creates many atoms: no effect
=============================================================================
