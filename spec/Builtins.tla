------------------------------ MODULE Builtins ------------------------------
(* Deterministic (and finitely non-deterministic) built-ins of the machine, *)
(* as functions of the arguments and the state.  Result: a record with      *)
(*   st = "ok"   : b, tr (new store and trail)                              *)
(*   st = "fail"                                                            *)
(*   st = "err"  : e, the formal part of the error term                     *)
(*   st = "sols" : pat, sols: pat is unified with each of sols in turn      *)
(*   st = "skip" : outside the model (the trace is not judged)              *)
EXTENDS Arith

InstErr == A("instantiation_error")
TypeErr(t, c) == S("type_error", <<A(t), c>>)
DomErr(t, c) == S("domain_error", <<A(t), c>>)
RepErr(t) == S("representation_error", <<A(t)>>)
EvalErr(t) == S("evaluation_error", <<A(t)>>)
PermErr(op, ty, c) == S("permission_error", <<A(op), A(ty), c>>)

Ok(m) == [st |-> "ok", b |-> m.b, tr |-> m.tr]
No == [st |-> "fail"]
Err(e) == [st |-> "err", e |-> e]
SkipR(w) == [st |-> "skip", e |-> <<"why", w>>]
Test(m, c) == IF c THEN Ok(m) ELSE No
Uni(m, x, y) == LET r == Unify(x, y, m.b, m.tr) IN
  IF r.cyc THEN SkipR("cyclic") ELSE IF r.ok THEN [st |-> "ok", b |-> r.b, tr |-> r.tr] ELSE No

(* ------------------------------------------------------------------------ *)
(* evaluation of integer expressions: small integers directly, others with  *)
(* Arith.tla.  Result: st = "ok", v: the value as an integer term           *)
Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN q ELSE -q     \* truncating
FDiv(x, y) == LET q == Abs(x) \div Abs(y) r == Abs(x) % Abs(y) IN                    \* flooring
              IF (x < 0) = (y < 0) THEN q ELSE IF r = 0 THEN -q ELSE -q - 1
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
OkT(t) == [st |-> "ok", v |-> t]
OkB(x) == IF Fits(x) THEN OkT(ToTerm(x)) ELSE Err(EvalErr("int_overflow"))
OkI(v) == IF Abs(v) < 1073741824 THEN OkT(I(v)) ELSE OkB(OfSmall(v))
ZeroDiv == Err(EvalErr("zero_divisor"))
RECURSIVE PowB(_, _)
PowB(x, n) == IF n = 0 THEN OneB ELSE LET r == PowB(x, n - 1) IN IF Fits(r) THEN Mul(r, x) ELSE r    \* overflow is kept
IPow(x, yt) ==
  LET y == Big(yt) odd == Limb(y.m, 1) % 2 = 1 IN
  IF x = OneB THEN OkB(OneB)
  ELSE IF x = NegB(OneB) THEN OkB(Mk(odd, <<1>>))
  ELSE IF x = ZeroB THEN (IF y.s THEN Err(EvalErr("undefined")) ELSE OkB(IF y = ZeroB THEN OneB ELSE ZeroB))
  ELSE IF y.s THEN Err(TypeErr("float", ToTerm(x)))
  ELSE IF yt[1] = "I" \/ yt[2] > 61 THEN Err(EvalErr("int_overflow"))
  ELSE OkB(PowB(x, yt[2]))
RECURSIVE Shift(_, _)                \* x * 2^y, rounded down
Shift(x, yt) ==
  IF x = ZeroB THEN OkB(x)
  ELSE IF yt[1] = "I" THEN (IF ~IsNeg(yt[2]) THEN Err(EvalErr("int_overflow")) ELSE OkB(IF x.s THEN NegB(OneB) ELSE ZeroB))
  ELSE IF yt[2] >= 0 THEN (IF yt[2] > 61 THEN Err(EvalErr("int_overflow")) ELSE OkB(Mul(x, Mk(FALSE, Pow2(yt[2])))))
  ELSE IF yt[2] < -61 THEN OkB(IF x.s THEN NegB(OneB) ELSE ZeroB)
  ELSE OkB(FDivB(x, Mk(FALSE, Pow2(-yt[2]))))
NegT(t) == ToTerm(NegB(Big(t)))
BigBin(f, xt, yt) ==
  LET x == Big(xt) y == Big(yt) IN
  CASE f = "+" -> OkB(Add(x, y))
    [] f = "-" -> OkB(Sub(x, y))
    [] f = "*" -> OkB(Mul(x, y))
    [] f = "//" -> IF y = ZeroB THEN ZeroDiv ELSE OkB(TDivB(x, y))
    [] f = "rem" -> IF y = ZeroB THEN ZeroDiv ELSE OkB(RemB(x, y))
    [] f = "div" -> IF y = ZeroB THEN ZeroDiv ELSE OkB(FDivB(x, y))
    [] f = "mod" -> IF y = ZeroB THEN ZeroDiv ELSE OkB(ModB(x, y))
    [] f = "min" -> OkB(IF CmpB(x, y) <= 0 THEN x ELSE y)
    [] f = "max" -> OkB(IF CmpB(x, y) >= 0 THEN x ELSE y)
    [] f = "gcd" -> OkB(Mk(FALSE, GcdM(x.m, y.m)))
    [] f \in {"/\\", "\\/", "xor"} -> OkB(BitB(f, x, y))
    [] f = "<<" -> Shift(x, yt)
    [] f = ">>" -> Shift(x, NegT(yt))
    [] f = "^" -> IPow(x, yt)
Bin(f, xt, yt) ==
  IF xt[1] = "i" /\ yt[1] = "i" THEN
    LET x == xt[2] y == yt[2] IN
    CASE f = "+" -> OkI(x + y)
      [] f = "-" -> OkI(x - y)
      [] f = "*" /\ Abs(x) < 32768 /\ Abs(y) < 32768 -> OkI(x * y)
      [] f = "//" -> IF y = 0 THEN ZeroDiv ELSE OkI(TDiv(x, y))
      [] f = "rem" -> IF y = 0 THEN ZeroDiv ELSE OkI(x - y * TDiv(x, y))
      [] f = "div" -> IF y = 0 THEN ZeroDiv ELSE OkI(FDiv(x, y))
      [] f = "mod" -> IF y = 0 THEN ZeroDiv ELSE OkI(x - y * FDiv(x, y))
      [] f = "min" -> OkI(IF x < y THEN x ELSE y)
      [] f = "max" -> OkI(IF x > y THEN x ELSE y)
      [] f = "gcd" -> OkI(Gcd(Abs(x), Abs(y)))
      [] OTHER -> BigBin(f, xt, yt)
  ELSE BigBin(f, xt, yt)
NegArg(xt) == Err(DomErr("not_less_than_zero", xt))
Un(f, xt) ==
  LET x == Big(xt) bits == Bits(x) IN
  CASE f = "-" -> OkB(NegB(x))
    [] f = "+" -> OkT(xt)
    [] f = "abs" -> OkB(Mk(FALSE, x.m))
    [] f = "sign" -> OkT(I(IF x = ZeroB THEN 0 ELSE IF x.s THEN -1 ELSE 1))
    [] f = "inc" -> OkB(Add(x, OneB))
    [] f = "dec" -> OkB(Sub(x, OneB))
    [] f = "\\" -> OkB(NotB(x))
    [] f = "msb" -> IF x.s THEN NegArg(xt) ELSE OkT(I(IF bits = {} THEN -1 ELSE CHOOSE n \in bits : \A k \in bits : k <= n))
    [] f = "lsb" -> IF x.s THEN NegArg(xt) ELSE OkT(I(IF bits = {} THEN -1 ELSE CHOOSE n \in bits : \A k \in bits : k >= n))
    [] f = "popcount" -> IF x.s THEN NegArg(xt) ELSE OkT(I(Cardinality(bits)))
BinOps == {"+", "-", "*", "//", "rem", "div", "mod", "min", "max", "gcd", "/\\", "\\/", "xor", "<<", ">>", "^"}
UnOps == {"-", "+", "abs", "sign", "inc", "dec", "\\", "msb", "lsb", "popcount"}
FloatOps == {"/", "**", "sqrt", "sin", "cos", "tan", "atan", "atan2", "acos", "asin", "exp", "log", "float", "ceiling", "floor", "round",
             "truncate", "float_integer_part", "float_fractional_part", "pi", "e", "epsilon", "log10", "cosh", "sinh", "tanh", "acosh",
             "asinh", "atanh"}
RECURSIVE Eval(_, _)
Eval(t0, b) == LET t == Deref(t0, b) IN
  CASE t[1] = "v" -> Err(InstErr)
    [] IsInt(t) -> OkT(t)
    [] t[1] = "f" -> SkipR("float")
    [] t[2] \in FloatOps -> SkipR("float")
    [] t[1] = "a" -> Err(TypeErr("evaluable", S("/", <<t, I(0)>>)))
    [] IsS(t) /\ Len(t[3]) = 2 /\ t[2] \in BinOps ->
         LET x == Eval(t[3][1], b)
             y == Eval(t[3][2], b) IN
         IF x.st # "ok" /\ y.st # "ok" /\ x # y THEN SkipR("order_of_errors")
         ELSE IF x.st # "ok" THEN x
         ELSE IF y.st # "ok" THEN y ELSE Bin(t[2], x.v, y.v)
    [] IsS(t) /\ Len(t[3]) = 1 /\ t[2] \in UnOps ->
         LET x == Eval(t[3][1], b) IN IF x.st # "ok" THEN x ELSE Un(t[2], x.v)
    [] IsCons(t) -> LET x == Deref(t[3][1], b) IN          \* [X]
         IF Deref(t[3][2], b) # Nil THEN SkipR("evaluable_list")
         ELSE IF IsV(x) THEN Err(InstErr) ELSE IF IsInt(x) THEN OkT(x) ELSE SkipR("evaluable_list")
    [] OTHER -> IF \E i \in 1..Len(t[3]) : Eval(t[3][i], b).st # "ok" THEN SkipR("order_of_errors")
                ELSE Err(TypeErr("evaluable", S("/", <<A(t[2]), I(Len(t[3]))>>)))
Rel(f, x, y) == LET c == CmpInt(x, y) IN
  CASE f = "=:=" -> c = 0 [] f = "=\\=" -> c # 0 [] f = "<" -> c < 0
    [] f = "=<" -> c <= 0 [] f = ">" -> c > 0 [] f = ">=" -> c >= 0
RelOps == {"=:=", "=\\=", "<", "=<", ">", ">="}
(* succ/2 *)
NotNat(t) == ~IsV(t) /\ (~IsInt(t) \/ Big(t).s)
Succ(m, x0, y0) ==
  LET x == Deref(x0, m.b) y == Deref(y0, m.b)
      bad(t) == IF IsInt(t) THEN Err(DomErr("not_less_than_zero", t)) ELSE Err(TypeErr("integer", t))
  IN IF NotNat(x) /\ NotNat(y) THEN SkipR("order_of_errors")
     ELSE IF IsV(x) /\ IsV(y) THEN Err(InstErr)
     ELSE IF NotNat(x) THEN bad(x)
     ELSE IF NotNat(y) THEN bad(y)
     ELSE IF IsV(x) THEN (IF y = I(0) THEN No ELSE Uni(m, x, ToTerm(Sub(Big(y), OneB))))
     ELSE LET r == Add(Big(x), OneB) IN
          IF Fits(r) THEN Uni(m, y, ToTerm(r)) ELSE IF IsV(y) THEN Err(EvalErr("int_overflow")) ELSE No

(* ------------------------------------------------------------------------ *)
(* terms                                                                    *)
MaxAr == 256
Functor(m, t0, f0, n0) ==
  LET t == Deref(t0, m.b) f == Deref(f0, m.b) n == Deref(n0, m.b) IN
  IF ~IsV(t) THEN
     LET name == IF IsS(t) THEN A(t[2]) ELSE t
         r == Unify(f, name, m.b, m.tr)
         n1 == Deref(n, r.b) IN
     IF IsS(t) /\ ~IsV(f) /\ ~IsA(f) THEN Err(TypeErr("atom", f))
     ELSE IF ~r.ok THEN No
     ELSE IF ~IsV(n1) /\ ~IsInt(n1) THEN Err(TypeErr("integer", n1))
     ELSE Uni(m, S("-", <<name, I(Arity(t))>>), S("-", <<f, n>>))
  ELSE IF (IsV(f) /\ ~IsV(n) /\ (~IsInt(n) \/ (n[1] = "i" /\ n[2] < 0)))
          \/ (IsV(n) /\ IsS(f)) \/ (IsS(f) /\ (~IsInt(n) \/ (n[1] = "i" /\ n[2] < 0))) THEN SkipR("order_of_errors")
  ELSE IF IsV(f) \/ IsV(n) THEN Err(InstErr)
  ELSE IF IsS(f) THEN Err(TypeErr("atomic", f))
  ELSE IF ~IsInt(n) THEN Err(TypeErr("integer", n))
  ELSE IF n[1] = "I" THEN SkipR("functor")
  ELSE IF n[2] < 0 THEN Err(DomErr("not_less_than_zero", n))
  ELSE IF n[2] = 0 THEN Uni(m, t, f)
  ELSE IF ~IsA(f) /\ n[2] > MaxAr - 1 THEN SkipR("order_of_errors")
  ELSE IF ~IsA(f) THEN Err(TypeErr("atom", f))
  ELSE IF n[2] > MaxAr - 1 THEN Err(RepErr("max_arity"))
  ELSE LET off == Len(m.b)
           m1 == [m EXCEPT !.b = Grow(@, n[2])]
       IN Uni(m1, t, S(f[2], [i \in 1..n[2] |-> V(off + i)]))
Arg(m, n0, t0, x) ==
  LET t == Deref(t0, m.b) n == Deref(n0, m.b) IN
  IF IsV(n) THEN Err(InstErr)
  ELSE IF ~IsInt(n) THEN Err(TypeErr("integer", n))
  ELSE IF n[1] = "I" THEN SkipR("arg")
  ELSE IF n[2] < 0 THEN Err(DomErr("not_less_than_zero", n))
  ELSE IF IsV(t) THEN Err(InstErr)
  ELSE IF ~IsS(t) THEN Err(TypeErr("compound", t))
  ELSE IF n[2] = 0 \/ n[2] > Len(t[3]) THEN No
  ELSE Uni(m, x, t[3][n[2]])
Univ(m, t0, l) ==
  LET t == Deref(t0, m.b) IN
  IF ~IsV(t) THEN
     IF AsList(l, m.b).kind = "no" THEN Err(TypeErr("list", l))
     ELSE Uni(m, MkList(IF IsS(t) THEN <<A(t[2])>> \o t[3] ELSE <<t>>), l)
  ELSE LET r == AsList(l, m.b) IN
    IF r.kind # "list" /\ r.items # <<>> /\ ~IsA(Deref(r.items[1], m.b)) THEN SkipR("order_of_errors")
    ELSE IF r.kind = "no" THEN Err(TypeErr("list", l))
    ELSE IF r.kind = "partial" THEN Err(InstErr)
    ELSE IF r.items = <<>> THEN Err(DomErr("non_empty_list", Nil))
    ELSE LET h == Deref(r.items[1], m.b) IN
      IF IsV(h) THEN Err(InstErr)
      ELSE IF Len(r.items) = 1 THEN (IF IsS(h) THEN Err(TypeErr("atomic", h)) ELSE Uni(m, t, h))
      ELSE IF ~IsA(h) THEN Err(TypeErr("atom", h))
      ELSE IF Len(r.items) > MaxAr THEN Err(RepErr("max_arity"))
      ELSE Uni(m, t, S(h[2], Tail(r.items)))
CopyT(m, x, y) == LET c == CopyTerm(x, m.b) IN Uni([m EXCEPT !.b = c.b], c.t, y)
TermVars(m, t, l) ==
  LET vs == VarsOf(t, m.b) IN
  IF AsList(l, m.b).kind = "no" THEN Err(TypeErr("list", l))
  ELSE Uni(m, MkList([i \in 1..Len(vs) |-> V(vs[i])]), l)
(* General subsumes Specific: unifying binds no variable of Specific.       *)
Subsumes(m, g, s) ==
  LET r == Unify(g, s, m.b, m.tr)
      vs == VarsOf(s, m.b) IN
  Test(m, r.ok /\ ~r.cyc /\ Resolve(s, r.b) # <<>> /\
          LET img == [i \in 1..Len(vs) |-> Deref(V(vs[i]), r.b)] IN
            (\A i \in 1..Len(vs) : IsV(img[i])) /\ (\A i, j \in 1..Len(vs) : i # j => img[i] # img[j])
            /\ \* a variable of s shared with g must not be mapped onto another variable of s
               Canon(s, m.b) = Canon(s, r.b))

(* ------------------------------------------------------------------------ *)
(* lists of items                                                           *)
Between(m, l0, h0, x0, name) ==
  LET l == Deref(l0, m.b) h == Deref(h0, m.b) x == Deref(x0, m.b) IN
  IF IsV(l) \/ IsV(h) THEN Err(InstErr)
  ELSE IF ~IsInt(l) THEN Err(TypeErr("integer", l))
  ELSE IF ~IsInt(h) THEN (IF name = "between" /\ h \in {A("inf"), A("infinite")} THEN SkipR("between") ELSE Err(TypeErr("integer", h)))
  ELSE IF ~IsV(x) /\ ~IsInt(x) THEN Err(TypeErr("integer", x))
  ELSE IF l[1] = "I" \/ h[1] = "I" \/ x[1] = "I" THEN SkipR("between")
  ELSE IF ~IsV(x) THEN Test(m, l[2] <= x[2] /\ x[2] <= h[2])
  ELSE IF h[2] - l[2] > 200 THEN SkipR("between")
  ELSE [st |-> "sols", pat |-> x, sols |-> [i \in 1..(IF h[2] < l[2] THEN 0 ELSE h[2] - l[2] + 1) |-> I(l[2] + i - 1)], b |-> m.b]

NoPair(t) == ~IsV(t) /\ ~IsF(t, "-", 2)
SortB(m, l, s, f) ==
  LET r == AsList(l, m.b) rs == AsList(s, m.b) IN
  IF f = "keysort" /\ \E i \in 1..Len(rs.items) : NoPair(Deref(rs.items[i], m.b)) THEN
     (IF rs.kind = "no" \/ r.kind # "list" \/ (\E i \in 1..Len(r.items) : ~IsF(Deref(r.items[i], m.b), "-", 2)) THEN SkipR("order_of_errors")
      ELSE LET i == CHOOSE i \in 1..Len(rs.items) : NoPair(Deref(rs.items[i], m.b)) /\ \A j \in 1..(i-1) : ~NoPair(Deref(rs.items[j], m.b))
           IN Err(TypeErr("pair", rs.items[i])))
  ELSE IF f = "keysort" /\ r.kind # "list" /\ r.items # <<>> THEN SkipR("order_of_errors")
  ELSE IF r.kind # "list" /\ rs.kind = "no" THEN SkipR("order_of_errors")
  ELSE IF r.kind = "partial" THEN Err(InstErr)
  ELSE IF r.kind = "no" THEN Err(TypeErr("list", l))
  ELSE IF AsList(s, m.b).kind = "no" THEN Err(TypeErr("list", s))
  ELSE LET items == [i \in 1..Len(r.items) |-> Deref(r.items[i], m.b)] IN
    CASE f # "keysort" /\ SortOpen(items, m.b) -> SkipR("var_order")
      [] f = "sort" -> Uni(m, MkList(Sort(items, m.b)), s)
      [] f = "sort0" \/ f = "msort" -> Uni(m, MkList(Msort(items, m.b)), s)
      [] f = "keysort" ->
           IF (\E i \in 1..Len(items) : IsV(items[i])) /\ (\E i \in 1..Len(items) : NoPair(items[i])) THEN SkipR("order_of_errors")
           ELSE IF \E i \in 1..Len(items) : IsV(items[i]) THEN Err(InstErr)
           ELSE IF \E i \in 1..Len(items) : ~IsF(items[i], "-", 2)
                THEN Err(TypeErr("pair", items[CHOOSE i \in 1..Len(items) : ~IsF(items[i], "-", 2) /\ \A j \in 1..(i-1) : IsF(items[j], "-", 2)]))
           ELSE IF KeysortOpen([i \in 1..Len(items) |-> S("-", <<Deref(items[i][3][1], m.b), items[i][3][2]>>)], m.b) THEN SkipR("var_order")
           ELSE Uni(m, MkList(Keysort(items, m.b)), s)

(* destructive assignment, through helper predicates of the driver:         *)
(*   x_setarg(N, T, X, R)            R is a copy of T with argument N := X  *)
(*   x_setargb(N, T, X, U, In, Aft)  In: the list of T after setarg/4 (empty if it failed); Aft: T after backtracking *)
SetargErr(m, n, t, x, u) ==      \* <<>> or the error
  IF IsV(t) THEN InstErr
  ELSE IF ~IsS(t) THEN TypeErr("compound", t)
  ELSE IF IsV(n) THEN InstErr
  ELSE IF ~IsInt(n) THEN TypeErr("integer", n)
  ELSE IF n[2] < 0 THEN DomErr("not_less_than_zero", n)
  ELSE IF IsV(u) THEN InstErr
  ELSE IF u \notin {A("true"), A("false")} THEN TypeErr("boolean", u)
  ELSE IF u = A("false") /\ ~IsA(x) /\ ~IsInt(x) THEN TypeErr("atomic", x)
  ELSE <<>>
Setarg(m, n0, t0, x0, u0, nb, as) ==
  LET n == Deref(n0, m.b) x == Deref(x0, m.b) u == Deref(u0, m.b)
      c == CopyTerm(t0, m.b)
      t == Deref(c.t, c.b)
      e == SetargErr(m, n, t, x, u)
      m1 == [m EXCEPT !.b = c.b]
      in == n[2] >= 1 /\ n[2] <= Len(t[3])
      t1 == S(t[2], [t[3] EXCEPT ![n[2]] = x])
  IN IF n[1] = "I" THEN SkipR("setarg")
     ELSE IF e # <<>> THEN Err(e)
     ELSE IF in /\ nb < 2 /\ IsV(Deref(t[3][n[2]], c.b)) THEN SkipR("setarg_var")  \* known finding: the variable may live in the cell that is overwritten
     ELSE IF nb = 0 \/ nb = 2 THEN (IF in THEN Uni(m1, t1, as[4]) ELSE No)
     ELSE LET cin == CopyTerm(t1, m1.b)
              m2 == IF in THEN [m1 EXCEPT !.b = cin.b] ELSE m1
          IN Uni(m2, S("-", <<MkList(IF in THEN <<cin.t>> ELSE <<>>), IF in /\ u = A("false") THEN t1 ELSE t>>), S("-", <<as[5], as[6]>>))
(* x_sort1(Kind, L, R): R is a copy of L sorted in place                     *)
Sort1(m, f, l, s, any) ==
  LET c == CopyTerm(l, m.b) m1 == [m EXCEPT !.b = c.b] IN
  IF ~IsV(Deref(s, m.b)) THEN SkipR("x_sort1")
  ELSE IF ~any /\ \E i \in 1..Len(AsList(c.t, c.b).items) : IsV(Deref(AsList(c.t, c.b).items[i], c.b))
       THEN SkipR("sort1_var")     \* known finding: the variable may live in the list cell that is overwritten
  ELSE SortB(m1, c.t, s, f)

(* numbervars/3 and bind_variables/2                                         *)
ChrOf(i) == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>[i + 1]
VarName(n) == ChrOf(n % 26) \o (IF n < 26 THEN "" ELSE ToString(n \div 26))
RECURSIVE Excl(_, _)               \* numbers named in a term
Excl(t0, b) == LET t == Deref(t0, b) IN
  IF ~IsS(t) THEN {}
  ELSE IF IsF(t, "$VAR", 1) /\ Deref(t[3][1], b)[1] = "i" THEN {Deref(t[3][1], b)[2]}
  ELSE IF IsF(t, "$VARNAME", 1) /\ IsA(Deref(t[3][1], b)) THEN {n \in 0..99 : VarName(n) = Deref(t[3][1], b)[2]}
  ELSE UNION {Excl(t[3][i], b) : i \in 1..Len(t[3])}
ExclItem(t0, b) == LET t == Deref(t0, b) IN
  Excl(t, b) \cup (IF IsF(t, "=", 2) /\ IsA(Deref(t[3][1], b)) THEN {n \in 0..99 : VarName(n) = Deref(t[3][1], b)[2]} ELSE {})
RECURSIVE FreeFrom(_, _, _)        \* the first k numbers >= n not excluded
FreeFrom(n, k, ex) == IF k = 0 THEN <<>> ELSE IF n \in ex THEN FreeFrom(n + 1, k, ex) ELSE <<n>> \o FreeFrom(n + 1, k - 1, ex)
BindVars(m, t, ex, from0, next, names) ==
  LET from == Deref(from0, m.b) nx == Deref(next, m.b) IN
  IF IsV(from) THEN Err(InstErr)
  ELSE IF ~IsInt(from) THEN Err(TypeErr("integer", from))
  ELSE IF from[1] = "I" THEN SkipR("numbervars")
  ELSE IF from[2] < 0 THEN Err(DomErr("not_less_than_zero", from))
  ELSE LET vs == VarsOf(t, m.b)
           ns == FreeFrom(from[2], Len(vs), ex)
           b1 == [i \in 1..Len(m.b) |-> IF \E j \in 1..Len(vs) : vs[j] = i
                    THEN LET n == ns[PosIn(i, vs)] IN IF names THEN S("$VARNAME", <<A(VarName(n))>>) ELSE S("$VAR", <<I(n)>>)
                    ELSE m.b[i]]
           m1 == [m EXCEPT !.b = b1, !.tr = @ \o [i \in 1..Len(vs) |-> <<"v", vs[i]>>]]
           n1 == Deref(next, b1)
       IN IF ~IsV(n1) /\ ~IsInt(n1) THEN (IF VarsOf(n1, m.b) # <<>> THEN SkipR("numbervars") ELSE Err(TypeErr("integer", n1)))
          ELSE Uni(m1, n1, I(IF ns = <<>> THEN from[2] ELSE ns[Len(ns)] + 1))
(* options: the last of a kind counts                                        *)
LastOf(items, f, n, dflt) == LET is == {i \in 1..Len(items) : IsF(items[i], f, n)} IN
  IF is = {} THEN dflt ELSE items[CHOOSE i \in is : \A j \in is : j <= i][3][1]
BindVariables(m, t, opts) ==
  LET r == AsList(opts, m.b)
      items == [i \in 1..Len(r.items) |-> Deref(r.items[i], m.b)]
      m1 == [m EXCEPT !.b = Grow(@, 1)]
      ex == AsList(LastOf(items, "exclude", 1, Nil), m.b)
      modes == {i \in 1..Len(items) : items[i] \in {A("numbervars"), A("namevars")}}
      from == LastOf(items, "from", 1, I(0))
  IN IF r.kind # "list" \/ ex.kind # "list" \/ (\E i \in 1..Len(items) : IsV(items[i])) THEN SkipR("options")
     ELSE IF Deref(from, m.b)[1] # "i" \/ Deref(from, m.b)[2] < 0 THEN SkipR("options")
     ELSE BindVars(m1, t, UNION {ExclItem(ex.items[i], m.b) : i \in 1..Len(ex.items)}, from, LastOf(items, "next", 1, V(Len(m1.b))),
                   modes # {} /\ items[CHOOSE i \in modes : \A j \in modes : j <= i] = A("namevars"))

CmpRel(f, c) == CASE f = "@<" -> c < 0 [] f = "@=<" -> c <= 0 [] f = "@>" -> c > 0 [] f = "@>=" -> c >= 0
CmpOps == {"@<", "@=<", "@>", "@>="}
TypeTests == {"var", "nonvar", "atom", "integer", "float", "number", "atomic", "compound", "callable", "ground",
              "is_list", "list", "partial_list", "list_or_partial_list"}
TypeTest(f, t0, b) ==
  LET t == Deref(t0, b) IN
  CASE f = "var" -> IsV(t) [] f = "nonvar" -> ~IsV(t) [] f = "atom" -> IsA(t) [] f = "integer" -> IsInt(t)
    [] f = "float" -> t[1] = "f" [] f = "number" -> IsNum(t) [] f = "atomic" -> IsAtomic(t) [] f = "compound" -> IsS(t)
    [] f = "callable" -> IsCallable(t) [] f = "ground" -> Ground(t, b)
    [] f = "is_list" \/ f = "list" -> AsList(t, b).kind = "list"
    [] f = "partial_list" -> AsList(t, b).kind = "partial"
    [] f = "list_or_partial_list" -> AsList(t, b).kind # "no"

BuiltinKeys ==
  {<<f, 2>> : f \in {"=", "\\=", "==", "\\==", "=..", "copy_term", "unify_with_occurs_check", "subsumes_term", "term_variables",
                     "is", "sort", "sort0", "msort", "keysort", "succ"} \cup CmpOps \cup RelOps}
  \cup {<<f, 3>> : f \in {"compare", "functor", "arg", "between", "for", "term_variables"}}
  \cup {<<f, 1>> : f \in TypeTests}
  \cup {<<"x_setarg", 4>>, <<"x_setargb", 6>>, <<"x_sort1", 3>>, <<"x_setarg_any", 4>>, <<"x_sort1_any", 3>>, <<"numbervars", 1>>, <<"numbervars", 3>>, <<"bind_variables", 2>>}

(* as: the arguments *)
Det(key, as, m) ==
  LET f == key[1] n == key[2] b == m.b IN
  CASE n = 1 /\ f \in TypeTests -> Test(m, TypeTest(f, as[1], b))
    [] f = "=" -> Uni(m, as[1], as[2])
    [] f = "\\=" -> LET r == Unify(as[1], as[2], b, m.tr) IN IF r.cyc THEN SkipR("cyclic") ELSE Test(m, ~r.ok)
    [] f = "==" -> Test(m, Cmp(as[1], as[2], b) = 0)
    [] f = "\\==" -> Test(m, Cmp(as[1], as[2], b) # 0)
    [] f \in CmpOps -> IF ByVars(as[1], as[2], b) THEN SkipR("var_order") ELSE Test(m, CmpRel(f, Cmp(as[1], as[2], b)))
    [] f = "compare" ->
         LET o == Deref(as[1], b) c == Cmp(as[2], as[3], b) IN
         IF ~IsV(o) /\ ~IsA(o) THEN Err(TypeErr("atom", o))
         ELSE IF IsA(o) /\ o[2] \notin {"<", "=", ">"} THEN Err(DomErr("order", o))
         ELSE IF ByVars(as[2], as[3], b) THEN SkipR("var_order")
         ELSE Uni(m, o, A(IF c < 0 THEN "<" ELSE IF c = 0 THEN "=" ELSE ">"))
    [] f = "succ" -> Succ(m, as[1], as[2])
    [] f = "functor" -> Functor(m, as[1], as[2], as[3])
    [] f = "arg" -> Arg(m, as[1], as[2], as[3])
    [] f = "=.." -> Univ(m, as[1], as[2])
    [] f = "copy_term" -> CopyT(m, as[1], as[2])
    [] f = "unify_with_occurs_check" ->
         LET r == Unify(as[1], as[2], b, m.tr) IN IF r.ok THEN [st |-> "ok", b |-> r.b, tr |-> r.tr] ELSE No
    [] f = "subsumes_term" -> Subsumes(m, as[1], as[2])
    [] f = "term_variables" /\ n = 2 -> TermVars(m, as[1], as[2])
    [] f = "term_variables" -> LET vs == VarsOf(as[1], b) IN Uni(m, ListOf([i \in 1..Len(vs) |-> V(vs[i])], as[3]), as[2])
    [] f = "is" -> LET r == Eval(as[2], b) IN IF r.st = "ok" THEN Uni(m, as[1], r.v) ELSE r
    [] f \in RelOps -> LET x == Eval(as[1], b) y == Eval(as[2], b) IN
                       IF x.st # "ok" /\ y.st # "ok" /\ x # y THEN SkipR("order_of_errors")
                       ELSE IF x.st # "ok" THEN x ELSE IF y.st # "ok" THEN y ELSE Test(m, Rel(f, x.v, y.v))
    [] f = "between" \/ f = "for" ->
         IF f = "between" THEN Between(m, as[1], as[2], as[3], f) ELSE Between(m, as[2], as[3], as[1], f)
    [] f \in {"sort", "sort0", "msort", "keysort"} -> SortB(m, as[1], as[2], f)
    [] f = "x_setarg" -> Setarg(m, as[1], as[2], as[3], A("true"), 0, as)
    [] f = "x_setargb" -> Setarg(m, as[1], as[2], as[3], as[4], 1, as)
    [] f = "x_setarg_any" -> Setarg(m, as[1], as[2], as[3], A("true"), 2, as)
    [] f = "x_sort1" \/ f = "x_sort1_any" -> Sort1(m, Deref(as[1], b)[2], as[2], as[3], f = "x_sort1_any")
    [] f = "numbervars" /\ n = 3 -> BindVars(m, as[1], {}, as[2], as[3], FALSE)
    [] f = "numbervars" -> LET m1 == [m EXCEPT !.b = Grow(@, 1)] IN BindVars(m1, as[1], {}, I(0), V(Len(m1.b)), FALSE)
    [] f = "bind_variables" -> BindVariables(m, as[1], as[2])
    [] OTHER -> SkipR("builtin")
=============================================================================
