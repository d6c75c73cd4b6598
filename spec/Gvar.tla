-------------------------------- MODULE Gvar --------------------------------
(* Global variables.  m.gv maps the name of a variable to its element; the  *)
(* elements are numbered, m.ge[id] is                                       *)
(*   <<"c", t>>        a copy: a term with variables of its own             *)
(*   <<"l", t>>        a link to a term of the store                        *)
(*   <<"r", ids, d>>   an array: its elements, and the element new cells    *)
(*                     are copied from (0: the array is of fixed size)      *)
(* A backtrackable assignment leaves <<"g", id, old>> on the trail; a       *)
(* permanent one cancels (<<"x">>) the entries of what it replaces.         *)
(* Results: [st |-> "ok" | "fail" | "err" | "skip", m, e].                  *)
EXTENDS Builtins

GOk(m) == [st |-> "ok", m |-> m]
GErr(m, e) == [st |-> "err", m |-> m, e |-> e]
GSkip(m, w) == [st |-> "skip", m |-> m, e |-> w]
GZero == <<"c", I(0)>>
RECURSIVE MaxVar(_)
MaxVar(t) == IF IsV(t) THEN t[2] ELSE IF IsS(t) THEN FoldLeft(LAMBDA a, u : LET x == MaxVar(u) IN IF x > a THEN x ELSE a, 0, t[3]) ELSE 0

GNew(m, v) == [m EXCEPT !.ge = Append(@, v)]           \* the new element is Len(ge)
Live(m, id) == \E i \in 1..Len(m.tr) : m.tr[i][1] = "g" /\ m.tr[i][2] = id
RECURSIVE Subtree(_, _)
Subtree(m, id) == {id} \cup (IF m.ge[id][1] = "r" THEN UNION {Subtree(m, m.ge[id][2][i]) : i \in 1..Len(m.ge[id][2])} ELSE {})
Cancel(m, id) == LET ids == Subtree(m, id) IN
  [m EXCEPT !.tr = [i \in 1..Len(@) |-> IF @[i][1] = "g" /\ @[i][2] \in ids THEN <<"x">> ELSE @[i]]]

RECURSIVE CopyElem(_, _)           \* a new element with the contents of id: [m, id]
CopyElems(m, ids) == FoldLeft(LAMBDA acc, i : LET r == CopyElem(acc.m, i) IN [m |-> r.m, ids |-> Append(acc.ids, r.id)],
                              [m |-> m, ids |-> <<>>], ids)
CopyElem(m, id) ==
  LET v == m.ge[id] IN
  IF v[1] # "r" THEN LET m1 == GNew(m, v) IN [m |-> m1, id |-> Len(m1.ge)]
  ELSE LET r == CopyElems(m, v[2])
           d == IF v[3] = 0 THEN [m |-> r.m, id |-> 0] ELSE CopyElem(r.m, v[3])
           m1 == GNew(d.m, <<"r", r.ids, d.id>>)
       IN [m |-> m1, id |-> Len(m1.ge)]

RECURSIVE Pow2Above(_, _)
Pow2Above(p, n) == IF p > n THEN p ELSE Pow2Above(2 * p, n)
MaxAuto == 1048576

(* the term at argument path sel of a term; raw: the last argument as it is *)
RECURSIVE SubAt(_, _, _)
SubAt(t0, sel, b) == LET t == Deref(t0, b) IN
  IF sel = <<>> THEN t0
  ELSE IF IsCons(t) THEN SubAt(AsList(t, b).items[sel[1]], Tail(sel), b)
  ELSE SubAt(t[3][sel[1]], Tail(sel), b)
RECURSIVE PutAt(_, _, _, _)
PutAt(t0, sel, x, b) == LET t == Deref(t0, b) IN
  IF sel = <<>> THEN x
  ELSE IF IsCons(t) THEN (IF sel[1] = 1 THEN LCons(PutAt(t[3][1], Tail(sel), x, b), t[3][2])
                          ELSE LCons(t[3][1], PutAt(t[3][2], <<sel[1] - 1>> \o Tail(sel), x, b)))
  ELSE <<"s", t[2], [t[3] EXCEPT ![sel[1]] = PutAt(@, Tail(sel), x, b)]>>
SelOk(t, n, b) == IF IsCons(t) THEN n >= 1 /\ n <= Len(AsList(t, b).items)
                  ELSE IsS(t) /\ n >= 1 /\ n <= Len(t[3])
Env(v, m) == IF v[1] = "c" THEN Grow(<<>>, MaxVar(v[2])) ELSE m.b

(* the element (and argument path) a name designates                        *)
RECURSIVE Target(_, _)
RECURSIVE GInt(_, _)               \* the value of an integer or of a variable holding one
RECURSIVE Index(_, _, _, _)
GInt(m, x0) ==
  LET x == Deref(x0, m.b) IN
  IF x[1] = "I" THEN GSkip(m, "gvar_big")
  ELSE IF x[1] = "i" THEN [st |-> "ok", m |-> m, n |-> x[2], id |-> 0, sel |-> <<>>]
  ELSE LET t == Target(m, x) IN
    IF t.st # "ok" THEN t
    ELSE LET v == t.m.ge[t.id] IN
      IF v[1] = "r" THEN GErr(t.m, TypeErr("integer", A("g_array")))
      ELSE LET y == Deref(SubAt(v[2], t.sel, Env(v, t.m)), Env(v, t.m)) IN
        IF y[1] = "I" THEN GSkip(t.m, "gvar_big")
        ELSE IF y[1] # "i" THEN (IF v[1] = "l" THEN GErr(t.m, TypeErr("integer", y))
                              ELSE GErr([t.m EXCEPT !.b = Grow(@, MaxVar(v[2]))], TypeErr("integer", Rename(y, Len(t.m.b)))))
        ELSE [st |-> "ok", m |-> t.m, n |-> y[2], id |-> t.id, sel |-> t.sel]
Index(m, id, g, i) ==              \* follow the indices from the i-th on
  IF i > Len(g[3]) THEN [st |-> "ok", m |-> m, id |-> id, sel |-> <<>>]
  ELSE LET x == GInt(m, g[3][i]) IN
    IF x.st # "ok" THEN x
    ELSE LET m1 == x.m v == m1.ge[id] n == x.n IN
      IF v[1] # "r" \/ n < 0 THEN GErr(m1, DomErr("g_array_index", g))
      ELSE IF n < Len(v[2]) THEN Index(m1, v[2][n + 1], g, i + 1)
      ELSE IF v[3] = 0 \/ n > MaxAuto THEN GErr(m1, DomErr("g_array_index", g))
      ELSE IF n > 300 THEN GSkip(m1, "gvar_auto")
      ELSE LET r == CopyElems(m1, [j \in 1..(Pow2Above(1, n) - Len(v[2])) |-> v[3]])
           IN Index([r.m EXCEPT !.ge[id] = <<"r", v[2] \o r.ids, v[3]>>], (v[2] \o r.ids)[n + 1], g, i + 1)
Target(m, g0) ==
  LET g == Deref(g0, m.b) IN
  IF IsV(g) THEN GErr(m, InstErr)
  ELSE IF ~IsCallable(g) THEN GErr(m, TypeErr("callable", g))
  ELSE IF IsF(g, "-", 2) THEN
    LET t == Target(m, g[3][1]) IN
    IF t.st # "ok" THEN t
    ELSE LET x == GInt(t.m, g[3][2]) IN
      IF x.st # "ok" THEN x
      ELSE LET v == x.m.ge[t.id] IN
        IF v[1] = "r" THEN GErr(x.m, DomErr("g_argument_selector", g))
        ELSE LET y == Deref(SubAt(v[2], t.sel, Env(v, x.m)), Env(v, x.m)) IN
          IF SelOk(y, x.n, Env(v, x.m)) THEN [st |-> "ok", m |-> x.m, id |-> t.id, sel |-> t.sel \o <<x.n>>]
          ELSE GErr(x.m, DomErr("g_argument_selector", g))
  ELSE LET m1 == IF g[2] \in DOMAIN m.gv THEN m ELSE LET m2 == GNew(m, GZero) IN [m2 EXCEPT !.gv = (g[2] :> Len(m2.ge)) @@ @]
           id == m1.gv[g[2]] IN
    IF IsA(g) THEN [st |-> "ok", m |-> m1, id |-> id, sel |-> <<>>]
    ELSE IF m1.ge[id][1] # "r" THEN GErr(m1, DomErr("g_array_index", g))
    ELSE Index(m1, id, g, 1)

(* ------------------------------------------------------------------------ *)
(* assignment                                                               *)
ArrayOps == {"g_array", "g_array_auto", "g_array_extend"}
IsArr(t) == IsS(t) /\ t[2] \in ArrayOps
ArrSize(t, b) == LET x == Deref(t[3][1], b) IN
  IF x[1] = "i" /\ Len(t[3]) <= 2 THEN x[2]
  ELSE IF IsCons(x) /\ Len(t[3]) = 1 /\ AsList(x, b).kind = "list" THEN Len(AsList(x, b).items)
  ELSE 0
(* the first invalid array definition inside a value: <<>> or <<term>>      *)
RECURSIVE BadArr(_, _)
BadArr(t0, b) == LET t == Deref(t0, b) IN
  IF ~IsArr(t) THEN <<>>
  ELSE IF ArrSize(t, b) <= 0 THEN <<t>>
  ELSE LET x == Deref(t[3][1], b) IN
    IF x[1] = "i" THEN (IF Len(t[3]) = 2 THEN BadArr(t[3][2], b) ELSE <<>>)
    ELSE FoldLeft(LAMBDA acc, y : IF acc # <<>> THEN acc ELSE BadArr(y, b), <<>>, AsList(x, b).items)

RECURSIVE PutElem(_, _, _, _)      \* give element id a (checked) value; the old one is forgotten
RECURSIVE NewElems(_, _, _)
NewElems(m, items, copy) ==        \* [m, ids]
  FoldLeft(LAMBDA acc, x : LET m1 == GNew(acc.m, GZero) IN [m |-> PutElem(m1, Len(m1.ge), x, copy), ids |-> Append(acc.ids, Len(m1.ge))],
           [m |-> m, ids |-> <<>>], items)
ArrInit(t, b) == LET x == Deref(t[3][1], b) IN           \* the initial values
  IF x[1] = "i" THEN [i \in 1..x[2] |-> IF Len(t[3]) = 2 THEN t[3][2] ELSE I(0)] ELSE AsList(x, b).items
PutElem(m, id, x0, copy) ==
  LET x == Deref(x0, m.b) IN
  IF IsArr(x) THEN
    LET r == NewElems(m, ArrInit(x, m.b), copy)
        d == IF x[2] # "g_array_auto" THEN [m |-> r.m, ids |-> <<0>>]
             ELSE NewElems(r.m, <<IF Len(x[3]) = 2 THEN x[3][2] ELSE I(0)>>, copy)
    IN [d.m EXCEPT !.ge[id] = <<"r", r.ids, d.ids[1]>>]
  ELSE [m EXCEPT !.ge[id] = IF copy \/ (IsAtomic(x) /\ x[1] # "f") THEN <<"c", Canon(x, m.b)>> ELSE <<"l", x>>]
Extend(m, id, x, bt, copy) ==
  LET v == m.ge[id]
      n == Len(v[2])
      old == IF bt THEN CopyElems(m, v[2]) ELSE [m |-> m, ids |-> v[2]]
      d == IF bt /\ v[3] # 0 THEN CopyElem(old.m, v[3]) ELSE [m |-> old.m, id |-> v[3]]
      init == ArrInit(x, m.b)
      more == NewElems(d.m, SubSeq(init, n + 1, Len(init)), copy)
  IN [more.m EXCEPT !.ge[id] = <<"r", old.ids \o more.ids, d.id>>]

Count(t0, v, b) == LET RECURSIVE C(_) C(u0) == LET u == Deref(u0, b) IN
                         IF IsV(u) THEN (IF u = v THEN 1 ELSE 0) ELSE IF IsS(u) THEN FoldLeft(LAMBDA a, w : a + C(w), 0, u[3]) ELSE 0
                   IN C(t0)
GAssign(m, g, x0, bt, copy) ==
  LET t == Target(m, g) IN
  IF t.st # "ok" THEN t
  ELSE LET m1 == t.m x == Deref(x0, m1.b) v == m1.ge[t.id] IN
    IF t.sel # <<>> THEN
      IF bt THEN GErr(m1, DomErr("g_argument_selector", g))
      ELSE LET off == IF v[1] = "c" THEN Len(m1.b) ELSE 0
               b1 == IF v[1] = "c" THEN Grow(m1.b, MaxVar(v[2])) ELSE m1.b
               tm == Rename(v[2], off)
               raw == SubAt(tm, t.sel, b1)
               new == PutAt(tm, t.sel, x, b1) IN
           IF (v[1] = "l" /\ IsV(raw)) \/ (IsV(Deref(raw, b1)) /\ Count(tm, Deref(raw, b1), b1) > 1) THEN GSkip(m1, "gvar_shared")
           ELSE IF IsArr(x) THEN GSkip(m1, "gvar_array_term")
           ELSE GOk([Cancel(m1, t.id) EXCEPT !.ge[t.id] = <<"c", Canon(new, b1)>>])
    ELSE LET bad == BadArr(x, m1.b) IN
      IF bad # <<>> THEN GErr(m1, DomErr("g_array_index", bad[1]))
      ELSE IF IsArr(x) /\ ArrSize(x, m1.b) > 300 THEN GSkip(m1, "gvar_size")
      ELSE LET ext == IsArr(x) /\ x[2] = "g_array_extend" /\ v[1] = "r"
               m2 == IF bt \/ ext THEN m1 ELSE Cancel(m1, t.id)
               m3 == IF ext THEN Extend(m2, t.id, x, bt, copy) ELSE PutElem(m2, t.id, x, copy)
           IN IF ext /\ ~bt /\ Live(m1, t.id) THEN GSkip(m1, "gvar_live")
              ELSE GOk(IF bt THEN [m3 EXCEPT !.tr = Append(@, <<"g", t.id, v>>)] ELSE m3)

(* ------------------------------------------------------------------------ *)
(* reading                                                                  *)
RECURSIVE ReadElem(_, _)           \* [t, b]
ReadElem(m, id) ==
  LET v == m.ge[id] IN
  IF v[1] = "l" THEN [t |-> v[2], b |-> m.b]
  ELSE IF v[1] = "c" THEN [t |-> Rename(v[2], Len(m.b)), b |-> Grow(m.b, MaxVar(v[2]))]
  ELSE LET r == FoldLeft(LAMBDA acc, i : LET x == ReadElem([m EXCEPT !.b = acc.b], i) IN [ts |-> Append(acc.ts, x.t), b |-> x.b],
                         [ts |-> <<>>, b |-> m.b], v[2])
       IN [t |-> S("g_array", <<MkList(r.ts)>>), b |-> r.b]
GUni(m, x, y) == LET r == Unify(x, y, m.b, m.tr) IN
  IF r.cyc THEN GSkip(m, "cyclic") ELSE IF r.ok THEN GOk([m EXCEPT !.b = r.b, !.tr = r.tr]) ELSE [st |-> "fail", m |-> m]
GRead(m, g, y) ==
  LET t == Target(m, g) IN
  IF t.st # "ok" THEN t
  ELSE LET v == t.m.ge[t.id] IN
    IF t.sel = <<>> THEN LET r == ReadElem(t.m, t.id) IN GUni([t.m EXCEPT !.b = r.b], r.t, y)
    ELSE LET r == ReadElem(t.m, t.id)
             x == SubAt(r.t, t.sel, r.b) IN
         IF v[1] = "l" /\ ~Ground(x, r.b) THEN GSkip(t.m, "gvar_link_sub")
         ELSE GUni([t.m EXCEPT !.b = r.b], x, y)

(* a name must be a variable holding an integer: like GInt, but not a number *)
GIntVar(m, g0) == LET g == Deref(g0, m.b) IN
  IF IsV(g) THEN GErr(m, InstErr) ELSE IF ~IsCallable(g) THEN GErr(m, TypeErr("callable", g)) ELSE GInt(m, g)
SetInt(m, x, n) ==                 \* store n where x (a GIntVar result) came from
  LET v == m.ge[x.id] IN [m EXCEPT !.ge[x.id] = <<"c", PutAt(v[2], x.sel, I(n), Env(v, m))>>]
BadInt(x, b) == LET d == Deref(x, b) IN ~IsV(d) /\ ~IsInt(d)
GInc(m, g, inc, old, new) ==       \* old, new: <<>> or <<term>>
  LET chk == SelectSeq(old \o new, LAMBDA x : BadInt(x, m.b)) IN
  IF chk # <<>> THEN GErr(m, TypeErr("integer", Deref(chk[1], m.b)))
  ELSE LET x == GIntVar(m, g) IN
    IF x.st # "ok" THEN x
    ELSE LET u == IF old = <<>> THEN GOk(x.m) ELSE GUni(x.m, old[1], I(x.n)) IN
      IF u.st # "ok" THEN u
      ELSE IF Live(x.m, x.id) \/ x.m.ge[x.id][1] = "l" THEN GSkip(x.m, "gvar_live")
      ELSE LET m1 == SetInt(u.m, x, x.n + inc) IN
        IF new = <<>> THEN GOk(m1) ELSE GUni(m1, new[1], I(x.n + inc))
BitOf(n, k) == (n \div (2 ^ k)) % 2
GBit(m, f, g, k0) ==
  LET k == Deref(k0, m.b) IN
  IF IsV(k) THEN GErr(m, InstErr)
  ELSE IF ~IsInt(k) THEN GErr(m, TypeErr("integer", k))
  ELSE IF k[1] = "I" THEN GSkip(m, "gvar_big")
  ELSE IF k[2] < 0 THEN GErr(m, DomErr("not_less_than_zero", k))
  ELSE IF k[2] > 28 THEN GSkip(m, "gvar_big")
  ELSE LET x == GIntVar(m, g) IN
    IF x.st # "ok" THEN x
    ELSE IF f = "g_test_set_bit" THEN [st |-> IF BitOf(x.n, k[2]) = 1 THEN "ok" ELSE "fail", m |-> x.m]
    ELSE IF f = "g_test_reset_bit" THEN [st |-> IF BitOf(x.n, k[2]) = 0 THEN "ok" ELSE "fail", m |-> x.m]
    ELSE IF Live(x.m, x.id) \/ x.m.ge[x.id][1] = "l" THEN GSkip(x.m, "gvar_live")
    ELSE LET bit == BitOf(x.n, k[2])
             n == IF f = "g_set_bit" THEN (IF bit = 1 THEN x.n ELSE x.n + 2 ^ k[2]) ELSE (IF bit = 1 THEN x.n - 2 ^ k[2] ELSE x.n)
         IN GOk(SetInt(x.m, x, n))
GSize(m, g, n) ==
  LET t == Target(m, g) IN
  IF t.st # "ok" THEN t
  ELSE IF BadInt(n, m.b) THEN GErr(t.m, TypeErr("integer", Deref(n, m.b)))
  ELSE IF t.sel # <<>> \/ t.m.ge[t.id][1] # "r" THEN [st |-> "fail", m |-> t.m]
  ELSE GUni(t.m, n, I(Len(t.m.ge[t.id][2])))

GvarKeys == {<<f, 2>> : f \in {"g_assign", "g_assignb", "g_link", "g_read", "g_array_size", "g_inc", "g_inco", "g_dec", "g_deco",
                               "g_set_bit", "g_reset_bit", "g_test_set_bit", "g_test_reset_bit"}}
            \cup {<<f, n>> : f \in {"g_inc", "g_dec"}, n \in {1, 3}}
GvarStep(key, as, m) ==
  LET f == key[1] n == key[2]
      inc == IF f \in {"g_inc", "g_inco"} THEN 1 ELSE -1 IN
  CASE f = "g_assign" -> GAssign(m, as[1], as[2], FALSE, TRUE)
    [] f = "g_assignb" -> GAssign(m, as[1], as[2], TRUE, TRUE)
    [] f = "g_link" -> GAssign(m, as[1], as[2], TRUE, FALSE)
    [] f = "g_read" -> GRead(m, as[1], as[2])
    [] f = "g_array_size" -> GSize(m, as[1], as[2])
    [] f \in {"g_inco", "g_deco"} -> GInc(m, as[1], inc, <<as[2]>>, <<>>)
    [] f \in {"g_inc", "g_dec"} -> IF n = 1 THEN GInc(m, as[1], inc, <<>>, <<>>)
                                   ELSE IF n = 2 THEN GInc(m, as[1], inc, <<>>, <<as[2]>>)
                                   ELSE GInc(m, as[1], inc, <<as[2]>>, <<as[3]>>)
    [] OTHER -> GBit(m, f, as[1], as[2])
=============================================================================
