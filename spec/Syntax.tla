------------------------------- MODULE Syntax -------------------------------
(* The concrete syntax of Prolog: the operator table and op/3, the token    *)
(* grammar over character codes, and the term grammar under an operator     *)
(* table.  Names are sequences of character codes.  A term is               *)
(*   <<"v", name>>  <<"a", name>>  <<"n", neg, digits>>  <<"f", neg, key>>  *)
(*   <<"s", name, args>>       (a list cell is '.' with two arguments)      *)
(* The term grammar has two readings.  The strict one is the standard's: an *)
(* atom that is an operator has priority 1201 unless it is a whole argument *)
(* or in brackets.  The lenient one lets it stand as any operand (priority  *)
(* 0).  A reader has to give the term of the strict reading when there is   *)
(* exactly one, may otherwise give any term of the lenient reading, and has *)
(* to refuse a text without any.                                            *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeTab == [x \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |-> CHOOSE c \in 32..126 : SubSeq(Printable, c - 31, c - 31) = x]
Codes(str) == [i \in 1..Len(str) |-> CodeTab[SubSeq(str, i, i)]]
NIL == <<91, 93>>
CURLY == <<123, 125>>
COMMA == <<44>>
BAR == <<124>>
MINUS == <<45>>
DOT == <<46>>
At(a) == <<"a", a>>
St(f, as) == <<"s", f, as>>
Li(seq, tail) == FoldRight(LAMBDA x, acc : <<"s", DOT, <<x, acc>>>>, seq, tail)

(* ---------------------------------------------------------------------- *)
(* The operator table: a function from <<kind, name>> to <<type, priority>> *)
Specs == {"fx", "fy", "xf", "yf", "xfx", "xfy", "yfx"}
SpecOf == [x \in {Codes(t) : t \in Specs} |-> CHOOSE t \in Specs : Codes(t) = x]
KindOf(t) == IF t \in {"fx", "fy"} THEN "pre" ELSE IF t \in {"xf", "yf"} THEN "post" ELSE "in"
Left(o) == IF o[1] \in {"yf", "yfx"} THEN o[2] ELSE o[2] - 1
Right(o) == IF o[1] \in {"fy", "xfy"} THEN o[2] ELSE o[2] - 1
Predefined == <<
  <<1200, "xfx", <<":-", "-->">>>>, <<1200, "fx", <<":-", "?-">>>>, <<1105, "xfy", <<"|">>>>, <<1100, "xfy", <<";">>>>,
  <<1050, "xfy", <<"->", "*->">>>>, <<1000, "xfy", <<",">>>>, <<900, "fy", <<"\\+">>>>,
  <<700, "xfx", <<"=", "\\=", "==", "\\==", "@<", "@>", "@=<", "@>=", "=..", "is", "=:=", "=\\=", "<", "=<", ">", ">=">>>>,
  <<600, "xfy", <<":">>>>, <<500, "yfx", <<"+", "-", "/\\", "\\/">>>>,
  <<400, "yfx", <<"*", "/", "//", "rem", "mod", "div", "<<", ">>">>>>, <<200, "xfx", <<"**">>>>, <<200, "xfy", <<"^">>>>,
  <<200, "fy", <<"+", "-", "\\">>>>,
  <<750, "xfy", <<"#<=>", "#\\<=>">>>>, <<740, "xfy", <<"#==>", "#\\==>">>>>, <<730, "xfy", <<"##">>>>, <<730, "yfx", <<"#\\/", "#\\\\/">>>>,
  <<720, "yfx", <<"#/\\", "#\\/\\">>>>, <<710, "fy", <<"#\\">>>>,
  <<700, "xfx", <<"#=", "#\\=", "#<", "#=<", "#>", "#>=", "#=#", "#\\=#", "#<#", "#=<#", "#>#", "#>=#">>>> >>
Rows == UNION {{<<r[1], r[2], Codes(r[3][i])>> : i \in 1..Len(r[3])} : r \in ToSet(Predefined)}
TableOf(rows) == [k \in {<<KindOf(r[2]), r[3]>> : r \in rows} |-> LET r == CHOOSE r \in rows : <<KindOf(r[2]), r[3]>> = k IN <<r[2], r[1]>>]
RowsOf(ops) == {<<ops[k][2], ops[k][1], k[2]>> : k \in DOMAIN ops}
InitOps == TableOf(Rows)
NoOps == [k \in {} |-> <<>>]
IsOp(ops, a) == \E k \in {"pre", "in", "post"} : <<k, a>> \in DOMAIN ops

Err1(n, args) == St(Codes(n), args)
OK == At(Codes("ok"))
InstE == At(Codes("instantiation_error"))
TypeE(t, x) == Err1("type_error", <<At(Codes(t)), x>>)
DomE(t, x) == Err1("domain_error", <<At(Codes(t)), x>>)
PermE(act, x) == Err1("permission_error", <<At(Codes(act)), At(Codes("operator")), x>>)

(* small numbers of the term representation *)
Num(t) == FoldLeft(LAMBDA acc, c : 10 * acc + (c - 48), 0, t[3]) * (IF t[2] = 1 THEN -1 ELSE 1)
Small(t) == t[1] = "n" /\ Len(t[3]) <= 6
PrioErrs(p) == IF p[1] = "v" THEN {InstE} ELSE IF p[1] # "n" THEN {TypeE("integer", p)}
               ELSE IF Small(p) /\ Num(p) >= 0 /\ Num(p) <= 1200 THEN {} ELSE {DomE("operator_priority", p)}
SpecErrs(t) == IF t[1] = "v" THEN {InstE} ELSE IF t[1] # "a" THEN {TypeE("atom", t)}
               ELSE IF t[2] \in DOMAIN SpecOf THEN {} ELSE {DomE("operator_specifier", t)}
(* What one definition does: the errors that apply, and the table after it. *)
(* (whether removing an operator that could not be defined is an error is   *)
(* left open)                                                               *)
OpOne(ops, p, t, a) ==
  LET es == PrioErrs(p) \cup SpecErrs(t) \cup (IF a[1] = "v" THEN {InstE} ELSE IF a[1] # "a" THEN {TypeE("atom", a)} ELSE {})
      n == a[2]
      k == KindOf(SpecOf[t[2]])
      clash == \/ n \in {NIL, CURLY}
               \/ (n = BAR /\ (k # "in" \/ Num(p) <= 1000))
               \/ (k = "post" /\ <<"in", n>> \in DOMAIN ops) \/ (k = "in" /\ <<"post", n>> \in DOMAIN ops)
      perm == IF a[1] # "a" THEN {} ELSE IF n = COMMA THEN {PermE("modify", a)}
              ELSE IF PrioErrs(p) \cup SpecErrs(t) # {} THEN IF n \in {NIL, CURLY, BAR} THEN {PermE("create", a)} ELSE {}
              ELSE IF n = BAR /\ k = "in" /\ Num(p) = 0 /\ <<"post", n>> \notin DOMAIN ops THEN {}
              ELSE IF clash THEN {PermE("create", a)} ELSE {}
      open == es = {} /\ perm # {} /\ n # COMMA /\ Num(p) = 0
      key == <<k, n>>
  IN [errs |-> es \cup perm \cup (IF a = At(COMMA) THEN {PermE("create", a)} ELSE {}),
      ok |-> es = {} /\ (perm = {} \/ open), bad |-> es # {} \/ perm # {},
      ops |-> IF es # {} \/ perm # {} THEN ops
              ELSE IF Num(p) = 0 THEN [x \in DOMAIN ops \ {key} |-> ops[x]]
              ELSE (key :> <<SpecOf[t[2]], Num(p)>>) @@ ops]
RECURSIVE ListSeq(_)
ListSeq(t) == IF t[1] = "s" /\ t[2] = DOT /\ Len(t[3]) = 2 THEN <<t[3][1]>> \o ListSeq(t[3][2]) ELSE <<>>
RECURSIVE ListEnd(_)
ListEnd(t) == IF t[1] = "s" /\ t[2] = DOT /\ Len(t[3]) = 2 THEN ListEnd(t[3][2]) ELSE t
(* op/3: the outcomes allowed, <<"ok" or the error, table>>.  The elements  *)
(* of a list are defined in turn; whether those before an illegal one stay  *)
(* defined is left open.                                                    *)
RECURSIVE OpSeq(_, _, _, _)
OpSeq(ops, p, t, as) ==
  IF as = <<>> THEN {<<OK, ops>>}
  ELSE LET r == OpOne(ops, p, t, as[1]) IN
       (IF r.ok THEN OpSeq(r.ops, p, t, Tail(as)) ELSE {}) \cup {<<e, ops>> : e \in r.errs}
OpCall(ops, p, t, a) ==
  IF a[1] = "a" THEN OpSeq(ops, p, t, <<a>>) \cup (IF a[2] = NIL THEN {<<OK, ops>>} ELSE {})
  ELSE LET as == ListSeq(a)
           end == ListEnd(a)
           pre == (IF end[1] = "v" \/ \E i \in 1..Len(as) : as[i][1] = "v" THEN {InstE} ELSE {})
                  \cup (IF end[1] # "v" /\ end # At(NIL) THEN {TypeE("list", a), TypeE("list", end)} ELSE {})
                  \cup (IF \E i \in 1..Len(as) : as[i][1] \notin {"a", "v"} THEN {TypeE("atom", as[i]) : i \in {j \in 1..Len(as) : as[j][1] \notin {"a", "v"}}} ELSE {})
                  \cup (IF a[1] = "v" THEN {InstE} ELSE {})
       IN IF pre # {} THEN {<<e, ops>> : e \in pre \cup PrioErrs(p) \cup SpecErrs(t)}
          ELSE LET out == OpSeq(ops, p, t, as) IN out \cup {<<o[1], ops>> : o \in {x \in out : x[1] # OK}}

(* current_op/3 *)
CurErrs(p, t, a) ==
  (IF p[1] = "v" \/ PrioErrs(p) = {} THEN {} ELSE {DomE("operator_priority", p), TypeE("integer", p)})
  \cup (IF t[1] = "v" \/ SpecErrs(t) = {} THEN {} ELSE {DomE("operator_specifier", t), TypeE("atom", t)})
  \cup (IF a[1] \in {"v", "a"} THEN {} ELSE {TypeE("atom", a)})
CurRows(ops, p, t, a) == {r \in RowsOf(ops) : (p[1] # "n" \/ Num(p) = r[1]) /\ (t[1] # "a" \/ SpecOf[t[2]] = r[2]) /\ (a[1] # "a" \/ a[2] = r[3])}

(* ---------------------------------------------------------------------- *)
(* Tokens.  s: the codes; at the end: -1.                                   *)
Ch(s, p) == IF p <= Len(s) THEN s[p] ELSE -1
Dig(c) == c >= 48 /\ c <= 57
Lower(c) == c >= 97 /\ c <= 122
Upper(c) == c >= 65 /\ c <= 90
Alnum(c) == Dig(c) \/ Lower(c) \/ Upper(c) \/ c = 95
GraphicSet == {35, 36, 38, 42, 43, 45, 46, 47, 58, 60, 61, 62, 63, 64, 92, 94, 126}
Graphic(c) == c \in GraphicSet
Layout(c) == (c >= 0 /\ c <= 32) \/ c = 127
HexDig(c) == Dig(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
OctDig(c) == c >= 48 /\ c <= 55
BinDig(c) == c = 48 \/ c = 49
HexVal(c) == IF Dig(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
InClass(k, c) == CASE k = "dig" -> Dig(c) [] k = "alnum" -> Alnum(c) [] k = "gr" -> Graphic(c) [] k = "hex" -> HexDig(c) [] k = "oct" -> OctDig(c) [] k = "bin" -> BinDig(c)
RECURSIVE Span(_, _, _)                  \* first position from p on outside the class
Span(s, p, k) == IF p <= Len(s) /\ InClass(k, s[p]) THEN Span(s, p + 1, k) ELSE p
RECURSIVE Find2(_, _, _, _)              \* first position of the pair c, d
Find2(s, p, c, d) == IF p + 1 > Len(s) THEN 0 ELSE IF s[p] = c /\ s[p + 1] = d THEN p ELSE Find2(s, p + 1, c, d)
RECURSIVE Find1(_, _, _)
Find1(s, p, c) == IF p > Len(s) THEN Len(s) + 1 ELSE IF s[p] = c THEN p ELSE Find1(s, p + 1, c)

RECURSIVE SkipLay(_, _)                  \* [p, lay, bad]: layout text and comments
SkipLay(s, p) ==
  LET c == Ch(s, p) IN
  IF Layout(c) THEN [SkipLay(s, p + 1) EXCEPT !.lay = TRUE]
  ELSE IF c = 37 THEN [SkipLay(s, Find1(s, p, 10)) EXCEPT !.lay = TRUE]
  ELSE IF c = 47 /\ Ch(s, p + 1) = 42 THEN
    LET q == Find2(s, p + 2, 42, 47) IN
    IF q = 0 THEN [p |-> Len(s) + 1, lay |-> TRUE, bad |-> TRUE] ELSE [SkipLay(s, q + 2) EXCEPT !.lay = TRUE]
  ELSE [p |-> p, lay |-> FALSE, bad |-> FALSE]

(* decimal digits, most significant first *)
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
RECURSIVE MulAdd(_, _, _)                \* d * m + carry
MulAdd(d, m, c) == IF d = <<>> THEN IF c = 0 THEN <<>> ELSE MulAdd(<<>>, m, c \div 10) \o <<48 + (c % 10)>>
                   ELSE LET v == (d[Len(d)] - 48) * m + c IN MulAdd(SubSeq(d, 1, Len(d) - 1), m, v \div 10) \o <<48 + (v % 10)>>
FromRadix(ds, r) == LET v == FoldLeft(LAMBDA acc, c : MulAdd(acc, r, HexVal(c)), <<>>, ds) IN IF v = <<>> THEN <<48>> ELSE Strip(v)
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
MaxDig == Codes("1152921504606846975")
MinDig == Codes("1152921504606846976")
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = <<>> THEN TRUE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LexLeq(Tail(a), Tail(b))
DigLeq(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLeq(a, b))

EscIn == <<97, 98, 102, 110, 114, 116, 118>>
EscOut == <<7, 8, 12, 10, 13, 9, 11>>
Q(k, c, e) == [k |-> k, c |-> c, e |-> e]
(* one item of a quoted token *)
QChar(s, p, q, noesc) ==
  LET c == Ch(s, p)
      d == Ch(s, p + 1)
  IN IF c = q THEN IF d = q THEN Q("char", c, p + 2) ELSE Q("close", 0, p + 1)
     ELSE IF c \in {-1, 10, 9} THEN Q("err", 0, p)
     ELSE IF c = 0 THEN Q("skip", 0, p)
     ELSE IF c # 92 \/ noesc THEN Q("char", c, p + 1)
     ELSE IF d = 10 THEN Q("cont", 0, p + 2)
     ELSE IF d \in {92, 39, 34, 96} THEN Q("char", d, p + 2)
     ELSE IF d \in ToSet(EscIn) THEN Q("char", EscOut[CHOOSE i \in 1..7 : EscIn[i] = d], p + 2)
     ELSE IF d = 120 \/ OctDig(d) THEN
       LET b == IF d = 120 THEN p + 2 ELSE p + 1
           e == IF d = 120 THEN Span(s, b, "hex") ELSE Span(s, b, "oct")
           r == IF d = 120 THEN 16 ELSE 8
           v == FoldLeft(LAMBDA acc, x : acc * r + HexVal(x), 0, SubSeq(s, b, e - 1))
       IN IF e - b > 5 THEN Q("skip", 0, p)
          ELSE IF v < 1 \/ v > 255 \/ Ch(s, e) # 92 THEN Q("err", 0, p)
          ELSE Q("char", v, e + 1)
     ELSE Q("err", 0, p)
RECURSIVE Quoted(_, _, _, _, _)
Quoted(s, p, q, noesc, acc) ==
  LET x == QChar(s, p, q, noesc) IN
  CASE x.k = "close" -> [k |-> "ok", v |-> acc, e |-> x.e]
    [] x.k = "char" -> Quoted(s, x.e, q, noesc, Append(acc, x.c))
    [] x.k = "cont" -> Quoted(s, x.e, q, noesc, acc)
    [] OTHER -> [k |-> x.k, v |-> acc, e |-> x.e]

Tok(k, v, q, lay, b, e) == [k |-> k, v |-> v, q |-> q, lay |-> lay, b |-> b, e |-> e]
(* The token at p.  tx: [s, r] the converted and the original codes (they   *)
(* differ under character conversion, which leaves quoted tokens alone);    *)
(* fl: [dq, bq] the flags, of the form "codes", "chars", "atom", possibly   *)
(* with the suffix of the variants without escape sequences.                *)
NoEsc(f) == Len(f) > 6
Token(tx, p0, fl) ==
  LET s == tx.s
      l == SkipLay(s, p0)
      p == l.p
      c == Ch(s, p)
      T(k, v, e) == Tok(k, v, FALSE, l.lay, p, e)
      str(k, q, noesc) ==
        LET src == IF q = 39 THEN tx.r ELSE s
            x == Quoted(src, p + 1, q, noesc, <<>>)
        IN IF x.k = "ok" THEN
             IF q # 39 /\ SubSeq(tx.r, p, x.e - 1) # SubSeq(s, p, x.e - 1) THEN T("skip", <<>>, p) ELSE Tok(k, x.v, TRUE, l.lay, p, x.e)
           ELSE T(x.k, <<>>, x.e)
      num ==
        LET d == Span(s, p, "dig")
            ds == SubSeq(s, p, d - 1)
            n == Ch(s, d)
        IN IF n = 46 /\ Dig(Ch(s, d + 1)) THEN
             LET f == Span(s, d + 1, "dig")
                 x == Ch(s, f)
                 g == IF x \in {69, 101} /\ Dig(Ch(s, f + 1)) THEN Span(s, f + 1, "dig")
                      ELSE IF x \in {69, 101} /\ Ch(s, f + 1) \in {43, 45} /\ Dig(Ch(s, f + 2)) THEN Span(s, f + 2, "dig")
                      ELSE f
             IN T("flo", [i \in 1..g - p |-> IF s[p + i - 1] = 69 THEN 101 ELSE s[p + i - 1]], g)
           ELSE IF ds = <<48>> /\ n = 39 THEN
             LET x == QChar(s, d + 1, 39, FALSE) IN
             IF x.k = "char" THEN T("int", Dec(x.c), x.e)
             ELSE IF x.k = "err" THEN T("err", <<>>, d) ELSE T("skip", <<>>, d)
           ELSE IF ds = <<48>> /\ n \in {98, 111, 120} THEN
             LET g == IF n = 98 THEN Span(s, d + 1, "bin") ELSE IF n = 111 THEN Span(s, d + 1, "oct") ELSE Span(s, d + 1, "hex")
                 r == IF n = 98 THEN 2 ELSE IF n = 111 THEN 8 ELSE 16
             IN IF g = d + 1 THEN T("int", <<48>>, d) ELSE T("int", FromRadix(SubSeq(s, d + 1, g - 1), r), g)
           ELSE T("int", Strip(ds), d)
  IN
  IF l.bad THEN T("err", <<>>, p)
  ELSE IF c = -1 THEN T("eof", <<>>, p)
  ELSE IF Lower(c) THEN LET e == Span(s, p, "alnum") IN T("name", SubSeq(s, p, e - 1), e)
  ELSE IF Upper(c) \/ c = 95 THEN LET e == Span(s, p, "alnum") IN T("var", SubSeq(s, p, e - 1), e)
  ELSE IF Dig(c) THEN num
  ELSE IF c = 39 THEN str("name", 39, FALSE)
  ELSE IF c = 34 THEN str("str", 34, NoEsc(fl.dq))
  ELSE IF c = 96 THEN str("bq", 96, NoEsc(fl.bq))
  ELSE IF c = 46 /\ (Ch(s, p + 1) = -1 \/ Layout(Ch(s, p + 1)) \/ Ch(s, p + 1) = 37) THEN T("end", <<>>, p + 1)
  ELSE IF Graphic(c) THEN LET e == Span(s, p, "gr") IN T("name", SubSeq(s, p, e - 1), e)
  ELSE IF c \in {33, 59} THEN T("name", <<c>>, p + 1)
  ELSE IF c = 40 /\ ~l.lay THEN T("open_ct", <<c>>, p + 1)
  ELSE IF c \in {40, 41, 91, 93, 123, 125, 124, 44} THEN T("punct", <<c>>, p + 1)
  ELSE T("skip", <<>>, p + 1)
(* the tokens from p up to the end token, the end of the text, or a lexical error: [ts, last] *)
RECURSIVE Clause(_, _, _, _)
Clause(tx, p, fl, acc) ==
  LET t == Token(tx, p, fl) IN
  IF t.k \in {"end", "eof", "err", "skip"} THEN [ts |-> acc, last |-> t] ELSE Clause(tx, t.e, fl, Append(acc, t))

(* ---------------------------------------------------------------------- *)
(* Terms.  E[i]: the terms that can start at token i, as <<term, priority,  *)
(* last token>>; A[i]: argument lists that start there, with their closing  *)
(* bracket; L[i]: the same for lists.  Built from right to left.            *)
Base(f) == IF f \in {"codes", "codes_no_escape"} THEN "codes" ELSE IF f \in {"chars", "chars_no_escape"} THEN "chars" ELSE "atom"
Limit == 400
Punct(t, c) == t.k = "punct" /\ t.v = <<c>>
Grammar(T, ops, fl, ft, strict) ==
  LET n == Len(T)
      Is(i, c) == i <= n /\ (Punct(T[i], c) \/ (c = 40 /\ T[i].k = "open_ct"))
      Atomic(i) == T[i].k \in {"str", "bq"} /\ Base(IF T[i].k = "str" THEN fl.dq ELSE fl.bq) = "atom"
      \* the name that starts at i: <<name, last token, quoted>>, or <<>>
      Nm(i) == IF T[i].k = "name" \/ Atomic(i) THEN <<T[i].v, i, T[i].q>>
               ELSE IF Is(i, 91) /\ Is(i + 1, 93) THEN <<NIL, i + 1, FALSE>>
               ELSE IF Is(i, 123) /\ Is(i + 1, 125) THEN <<CURLY, i + 1, FALSE>>
               ELSE IF ~strict /\ Is(i, 44) THEN <<COMMA, i, FALSE>>
               ELSE <<>>
      Arg(x) == x[2] <= 999 \/ x[2] = 1201
      Prim(i, E, A, L) ==
        LET t == T[i]
            nm == Nm(i)
        IN
        IF nm # <<>> THEN
          LET a == nm[1]
              e == nm[2]
              atom == {<<At(a), IF strict /\ IsOp(ops, a) THEN 1201 ELSE 0, e>>}
              lit == IF a = MINUS /\ e < n /\ T[e + 1].k = "int" THEN IF DigLeq(T[e + 1].v, MinDig) THEN {<<<<"n", IF T[e + 1].v = <<48>> THEN 0 ELSE 1, T[e + 1].v>>, 0, e + 1>>} ELSE {}
                     ELSE IF a = MINUS /\ e < n /\ T[e + 1].k = "flo" THEN {<<<<"f", 1, ft[T[e + 1].v]>>, 0, e + 1>>} ELSE {}
              only == strict /\ ~nm[3] /\ a = MINUS /\ e < n /\ T[e + 1].k \in {"int", "flo"} /\ ~T[e + 1].lay
              pre == IF <<"pre", a>> \in DOMAIN ops /\ e < n
                     THEN LET o == ops[<<"pre", a>>] IN {<<St(a, <<x[1]>>), o[2], x[3]>> : x \in {y \in E[e + 1] : y[2] <= Right(o)}} ELSE {}
          IN IF e < n /\ T[e + 1].k = "open_ct" /\ ~Is(i, 44) THEN {<<St(a, l[1]), 0, l[2]>> : l \in A[e + 2]}
             ELSE IF only THEN lit
             ELSE lit \cup pre \cup atom
        ELSE
        CASE t.k = "var" -> {<<<<"v", IF t.v = <<95>> THEN <<95, 0, t.b>> ELSE t.v>>, 0, i>>}
          [] t.k = "int" -> IF DigLeq(t.v, MaxDig) THEN {<<<<"n", 0, t.v>>, 0, i>>} ELSE {}
          [] t.k = "flo" -> {<<<<"f", 0, ft[t.v]>>, 0, i>>}
          [] t.k \in {"str", "bq"} ->
               {<<Li([j \in 1..Len(t.v) |-> IF Base(IF t.k = "str" THEN fl.dq ELSE fl.bq) = "codes" THEN <<"n", 0, Dec(t.v[j])>> ELSE At(<<t.v[j]>>)], At(NIL)), 0, i>>}
          [] Is(i, 40) -> {<<x[1], 0, x[3] + 1>> : x \in {y \in E[i + 1] : Is(y[3] + 1, 41)}}
          [] Is(i, 123) -> {<<St(CURLY, <<x[1]>>), 0, x[3] + 1>> : x \in {y \in E[i + 1] : Is(y[3] + 1, 125)}}
          [] Is(i, 91) -> {<<l[1], 0, l[2]>> : l \in L[i + 1]}
          [] OTHER -> {}
      InfixAt(j) ==
        IF j > n THEN <<>>
        ELSE LET a == IF T[j].k = "name" THEN T[j].v ELSE IF Is(j, 44) THEN COMMA ELSE IF Is(j, 124) THEN BAR ELSE <<>> IN
             IF T[j].k = "name" /\ T[j].q /\ a = COMMA /\ strict THEN <<>>
             ELSE IF a = <<>> /\ T[j].k # "name" THEN <<>>
             ELSE IF <<"in", a>> \in DOMAIN ops /\ ~(a = BAR /\ T[j].k = "punct" /\ ops[<<"in", a>>][2] <= 1000) THEN <<"in", a, ops[<<"in", a>>]>>
             ELSE IF <<"post", a>> \in DOMAIN ops /\ T[j].k = "name" THEN <<"post", a, ops[<<"post", a>>]>>
             ELSE <<>>
      ExtOne(x, E) ==
        LET o == InfixAt(x[3] + 1) IN
        IF o = <<>> \/ x[2] > Left(o[3]) THEN {}
        ELSE IF o[1] = "post" THEN {<<St(o[2], <<x[1]>>), o[3][2], x[3] + 1>>}
        ELSE {<<St(o[2], <<x[1], y[1]>>), o[3][2], y[3]>> : y \in {z \in E[x[3] + 2] : z[2] <= Right(o[3])}}
      RECURSIVE Ext(_, _, _)
      Ext(new, all, E) ==
        LET nx == (UNION {ExtOne(x, E) : x \in new}) \ all IN
        IF nx = {} \/ Cardinality(all) > Limit THEN all ELSE Ext(nx, all \cup nx, E)
      step(acc, i) ==
        LET p == Prim(i, acc.E, acc.A, acc.L)
            e == Ext(p, p, acc.E)
            E1 == [acc.E EXCEPT ![i] = e]
            as == {x \in e : Arg(x)}
            a == UNION {IF Is(x[3] + 1, 41) THEN {<<<<x[1]>>, x[3] + 1>>}
                        ELSE IF Is(x[3] + 1, 44) THEN {<<<<x[1]>> \o l[1], l[2]>> : l \in acc.A[x[3] + 2]} ELSE {} : x \in as}
            l == UNION {IF Is(x[3] + 1, 93) THEN {<<Li(<<x[1]>>, At(NIL)), x[3] + 1>>}
                        ELSE IF Is(x[3] + 1, 44) THEN {<<Li(<<x[1]>>, m[1]), m[2]>> : m \in acc.L[x[3] + 2]}
                        ELSE IF Is(x[3] + 1, 124) THEN {<<Li(<<x[1]>>, y[1]), y[3] + 1>> : y \in {z \in acc.E[x[3] + 2] : Arg(z) /\ Is(z[3] + 1, 93)}} ELSE {} : x \in as}
        IN IF acc.big \/ Cardinality(e) > Limit THEN [acc EXCEPT !.big = TRUE]
           ELSE [E |-> E1, A |-> [acc.A EXCEPT ![i] = a], L |-> [acc.L EXCEPT ![i] = l], big |-> FALSE]
      none == [i \in 1..n + 2 |-> {}]
      res == FoldLeft(step, [E |-> none, A |-> none, L |-> none, big |-> FALSE], [k \in 1..n |-> n + 1 - k])
  IN [big |-> res.big, terms |-> IF n = 0 THEN {} ELSE {x[1] : x \in {y \in res.E[1] : y[3] = n /\ y[2] <= 1200}}]

(* ---------------------------------------------------------------------- *)
RECURSIVE VarSeq(_, _)
VarSeq(t, acc) == IF t[1] = "v" THEN IF t[2] \in ToSet(acc) THEN acc ELSE Append(acc, t[2])
                  ELSE IF t[1] = "s" THEN FoldLeft(LAMBDA a, x : VarSeq(x, a), acc, t[3]) ELSE acc
RECURSIVE Occ(_, _)
Occ(t, v) == IF t[1] = "v" THEN IF t[2] = v THEN 1 ELSE 0
             ELSE IF t[1] = "s" THEN FoldLeft(LAMBDA a, x : a + Occ(x, v), 0, t[3]) ELSE 0
RECURSIVE Repl(_, _)
Repl(t, vs) == IF t[1] = "v" THEN <<"v", <<CHOOSE i \in 1..Len(vs) : vs[i] = t[2]>>>>
               ELSE IF t[1] = "s" THEN <<"s", t[2], [i \in 1..Len(t[3]) |-> Repl(t[3][i], vs)]>> ELSE t
Canon(t) == Repl(t, VarSeq(t, <<>>))
(* '$VAR'(N) shown as a variable name (writeq, print, portray_clause) *)
DivMod26(ds) == FoldLeft(LAMBDA acc, c : [q |-> Append(acc.q, 48 + ((10 * acc.r + (c - 48)) \div 26)), r |-> (10 * acc.r + (c - 48)) % 26], [q |-> <<>>, r |-> 0], ds)
VarName(ds) == LET d == DivMod26(ds) IN <<65 + d.r>> \o (IF Strip(d.q) = <<48>> THEN <<>> ELSE Strip(d.q))
DVAR == Codes("$VAR")
RECURSIVE NumVars(_)
NumVars(t) == IF t[1] # "s" THEN t
              ELSE IF t[2] = DVAR /\ Len(t[3]) = 1 /\ t[3][1][1] = "n" /\ t[3][1][2] = 0 THEN <<"v", <<-1>> \o VarName(t[3][1][3])>>
              ELSE <<"s", t[2], [i \in 1..Len(t[3]) |-> NumVars(t[3][i])]>>
=============================================================================
