--------------------------------- MODULE Fd ---------------------------------
(* Finite domain constraints.  A store is the set of assignments that the   *)
(* constraints posted so far admit, within the box of values considered:    *)
(* lo: the assignments that satisfy every constraint; hi: in addition those *)
(* for which a constraint is left open (a reified constraint over an        *)
(* expression without value).  What a solver may do with a store: show any  *)
(* domains that keep every assignment of lo, shrink, and are exact once     *)
(* every variable has a value; fail only when lo is empty; enumerate a set  *)
(* between lo and hi, each assignment once.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

(* ---- expressions: <<"v", k>>, <<"i", n>>, <<"e", f, <<args>>>> ---------- *)
U == -2000000000                         \* no value
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN 1 ELSE x * Power(x, n - 1)
(* operands of non-linear operations are FD values: natural numbers         *)
Nats(x, y) == x >= 0 /\ y >= 0
RECURSIVE Ev(_, _)
Ev(e, a) ==
  CASE e[1] = "i" -> e[2]
    [] e[1] = "v" -> a[e[2]]
    [] OTHER ->
      LET f == e[2]
          x == Ev(e[3][1], a)
      IN
      IF x = U THEN U
      ELSE IF Len(e[3]) = 1 THEN (IF f = "-" THEN -x ELSE x)
      ELSE LET y == Ev(e[3][2], a) IN
      IF y = U THEN U
      ELSE CASE f = "+" -> x + y
             [] f = "-" -> x - y
             [] f = "*" -> x * y
             [] ~Nats(x, y) -> U
             [] f = "**" -> Power(x, y)
             [] f = "min" -> IF x < y THEN x ELSE y
             [] f = "max" -> IF x > y THEN x ELSE y
             [] f = "dist" -> Abs(x - y)
             [] y = 0 -> U
             [] f = "//" -> x \div y
             [] f = "rem" -> x % y
             [] f = "/" -> IF x % y = 0 THEN x \div y ELSE U
             [] f = "quot_rem" -> LET r == Ev(e[3][3], a) IN IF r = x % y THEN x \div y ELSE U

Rel(op, x, y) ==
  CASE op \in {"#=", "#=#"} -> x = y
    [] op \in {"#\\=", "#\\=#"} -> x # y
    [] op \in {"#<", "#<#"} -> x < y
    [] op \in {"#=<", "#=<#"} -> x <= y
    [] op \in {"#>", "#>#"} -> x > y
    [] op \in {"#>=", "#>=#"} -> x >= y

(* ---- boolean expressions: 0, 1 or U (open) ------------------------------ *)
BoolOps == {"#<=>", "#\\<=>", "##", "#==>", "#\\==>", "#/\\", "#\\/\\", "#\\/", "#\\\\/"}
B(b) == IF b THEN 1 ELSE 0
RECURSIVE Bv(_, _)
Bv(e, a) ==
  CASE e[1] \in {"i", "v"} -> LET n == Ev(e, a) IN IF n \in {0, 1} THEN n ELSE U
    [] e[2] = "#\\" -> LET x == Bv(e[3][1], a) IN IF x = U THEN U ELSE 1 - x
    [] e[2] \in BoolOps ->
         LET x == Bv(e[3][1], a)
             y == Bv(e[3][2], a)
             f == e[2]
         IN IF x = U \/ y = U THEN U
            ELSE (CASE f = "#<=>" -> B(x = y)
                   [] f \in {"#\\<=>", "##"} -> B(x # y)
                   [] f = "#==>" -> B(x <= y)
                   [] f = "#\\==>" -> B(x > y)
                   [] f = "#/\\" -> x * y
                   [] f = "#\\/\\" -> 1 - x * y
                   [] f = "#\\/" -> B(x + y > 0)
                   [] f = "#\\\\/" -> B(x + y = 0))
    [] OTHER -> LET p == Ev(e[3][1], a)
                    q == Ev(e[3][2], a) IN
                IF p = U \/ q = U THEN U ELSE B(Rel(e[2], p, q))

IsRel(c) == c[2] \in {"#=", "#\\=", "#<", "#=<", "#>", "#>=", "#=#", "#\\=#", "#<#", "#=<#", "#>#", "#>=#"}
Prime(n) == n >= 2 /\ \A d \in 2..(n - 1) : n % d # 0
Vals(l, a) == [i \in 1..Len(l) |-> Ev(l[i], a)]
Occ(l, v, a) == Cardinality({i \in 1..Len(l) : Ev(l[i], a) = v})
(* U when the truth of one of the expressions is open                       *)
CountOf(l, a) == LET bs == [i \in 1..Len(l) |-> Bv(l[i], a)] IN
  IF \E i \in 1..Len(l) : bs[i] = U THEN U ELSE FoldLeft(LAMBDA p, q : p + q, 0, bs)
TV(b) == B(b)
Open3(n, b) == IF n = U THEN U ELSE B(b)

(* ---- constraints: 1 holds, 0 does not, U left open ---------------------- *)
RECURSIVE Holds(_, _)
Holds(c, a) ==
  LET f == c[2]
      as == c[3]
      v(i) == Ev(as[i], a)
  IN
  CASE IsRel(c) -> LET x == v(1)
                       y == v(2) IN B(x # U /\ y # U /\ Rel(f, x, y))
    [] f \in BoolOps \/ f = "#\\" -> Bv(c, a)
    [] f = "=" -> B(v(1) = v(2))
    [] f = "fd_domain" -> B(\A i \in 1..Len(as[1]) : Ev(as[1][i], a) \in as[2]..as[3])
    [] f = "fd_domain_list" -> B(\A i \in 1..Len(as[1]) : \E j \in 1..Len(as[2]) : Ev(as[1][i], a) = as[2][j])
    [] f = "fd_domain_bool" -> B(\A i \in 1..Len(as[1]) : Ev(as[1][i], a) \in {0, 1})
    [] f = "fd_use_vector" -> 1
    [] f = "all" -> B(\A i \in 1..Len(as[1]) : Holds(as[1][i], a) = 1)
    [] f = "fd_prime" -> B(Prime(v(1)))
    [] f = "fd_not_prime" -> B(~Prime(v(1)))
    [] f = "fd_reified_in" -> B(B(v(1) \in as[2]..as[3]) = v(4))
    [] f = "fd_cardinality" -> LET n == CountOf(as[1], a) IN Open3(n, n = v(2))
    [] f = "fd_cardinality3" -> LET n == CountOf(as[2], a) IN Open3(n, n \in as[1]..as[3])
    [] f = "fd_at_least_one" -> LET n == CountOf(as[1], a) IN Open3(n, n >= 1)
    [] f = "fd_at_most_one" -> LET n == CountOf(as[1], a) IN Open3(n, n <= 1)
    [] f = "fd_only_one" -> LET n == CountOf(as[1], a) IN Open3(n, n = 1)
    [] f = "fd_all_different" -> LET l == Vals(as[1], a) IN B(\A i, j \in 1..Len(l) : i # j => l[i] # l[j])
    [] f = "fd_element" -> B(v(1) \in 1..Len(as[2]) /\ as[2][v(1)] = v(3))
    [] f = "fd_element_var" -> B(v(1) \in 1..Len(as[2]) /\ Ev(as[2][v(1)], a) = v(3))
    [] f = "fd_atmost" -> B(Occ(as[2], as[3], a) <= as[1])
    [] f = "fd_atleast" -> B(Occ(as[2], as[3], a) >= as[1])
    [] f = "fd_exactly" -> B(Occ(as[2], as[3], a) = as[1])
    [] f = "fd_relation" -> B(Vals(as[2], a) \in ToSet(as[1]))
    [] f = "fd_relationc" -> B(\E r \in 1..Len(as[1][1]) : \A i \in 1..Len(as[2]) : Ev(as[2][i], a) = as[1][i][r])

(* the variables that stand for truth values: an integer other than 0 and 1 is a type error             *)
RECURSIVE BoolLeaves(_)
BoolLeaves(e) ==
  CASE e[1] = "i" -> {}
    [] e[1] = "v" -> {e[2]}
    [] e[2] \in BoolOps \cup {"#\\"} -> UNION {BoolLeaves(e[3][i]) : i \in 1..Len(e[3])}
    [] OTHER -> {}
BoolVars(c) ==
  LET l == CASE c[2] \in BoolOps \cup {"#\\"} -> <<c>>
             [] c[2] \in {"fd_cardinality", "fd_at_least_one", "fd_at_most_one", "fd_only_one"} -> c[3][1]
             [] c[2] = "fd_cardinality3" -> c[3][2]
             [] OTHER -> <<>>
  IN UNION {BoolLeaves(l[i]) : i \in 1..Len(l)}

(* ---- stores ------------------------------------------------------------- *)
RECURSIVE Box(_)
Box(ds) == IF ds = <<>> THEN {<<>>}
           ELSE {Append(a, x) : a \in Box(Front(ds)), x \in ToSet(Last(ds))}
Post(st, c) == [st EXCEPT !.lo = {a \in @ : Holds(c, a) = 1}, !.hi = {a \in @ : Holds(c, a) # 0}]

(* ---- observed domains --------------------------------------------------- *)
(* [k |-> "free"], [k |-> "int", n], [k |-> "fd", min, max, size, vals, vec, xc];    *)
(* vals is empty for a domain of more than 300 values                                *)
MaxInt == 268435455
Interval(d) == d.size = d.max - d.min + 1
In(d, n) == CASE d.k = "free" -> n \in 0..MaxInt
              [] d.k = "int" -> n = d.n
              [] OTHER -> IF d.vals # <<>> THEN n \in ToSet(d.vals) ELSE n \in d.min..d.max
(* a domain is described consistently                                       *)
Wf(d) == d.k = "fd" =>
  /\ d.size = 2 \/ d.size > 2            \* a single value is an integer
  /\ d.min >= 0 /\ d.max <= MaxInt /\ d.min < d.max
  /\ d.vals # <<>> => /\ d.vals[1] = d.min /\ Last(d.vals) = d.max /\ Len(d.vals) = d.size
                      /\ \A i \in 1..(Len(d.vals) - 1) : d.vals[i] < d.vals[i + 1]
  /\ Interval(d) \/ d.vec = 1            \* a domain with holes has a vector
(* new within old                                                           *)
Within(n, o) ==
  CASE o.k = "free" -> TRUE
    [] o.k = "int" -> n = o
    [] n.k = "int" -> In(o, n.n)
    [] n.k = "free" -> FALSE
    [] OTHER -> IF n.vals # <<>> THEN \A i \in 1..Len(n.vals) : In(o, n.vals[i])
                ELSE n.min >= o.min /\ n.max <= o.max /\ n.size <= o.size
AllInt(dom) == \A i \in 1..Len(dom) : dom[i].k = "int"
Tuple(dom) == [i \in 1..Len(dom) |-> dom[i].n]
Lost(dom) == \E i \in 1..Len(dom) : dom[i].k = "fd" /\ dom[i].xc = 1
(* the domains keep every solution                                          *)
Keeps(dom, st) == \A a \in st.lo : \A i \in 1..Len(dom) : In(dom[i], a[i])

(* the variables the labeling enumerates first, when the method determines it: 0 when it does not   *)
Size(d) == IF d.k = "int" THEN 1 ELSE d.size
MinD(d) == IF d.k = "int" THEN d.n ELSE d.min
MaxD(d) == IF d.k = "int" THEN d.n ELSE d.max
Regret(d) == IF Len(d.vals) >= 2 THEN d.vals[2] - d.vals[1] ELSE 1
Best(c, key(_), strict) ==               \* the leftmost of the best, if the best is unique or strict
  LET m == Max({key(x) : x \in c})
      b == {x \in c : key(x) = m} IN
  IF strict \/ Cardinality(b) = 1 THEN Min(b) ELSE 0
FirstVar(dom, vs, vm) ==                 \* a position of vs
  LET c == {i \in 1..Len(vs) : dom[vs[i]].k = "fd"} IN
  IF c = {} THEN 0
  ELSE CASE vm = "standard" -> Min(c)
         [] vm \in {"first_fail", "ff"} -> Best(c, LAMBDA i : -Size(dom[vs[i]]), TRUE)
         [] vm = "most_constrained" -> Best(c, LAMBDA i : -Size(dom[vs[i]]), FALSE)
         [] vm = "smallest" -> Best(c, LAMBDA i : -MinD(dom[vs[i]]), FALSE)
         [] vm = "largest" -> Best(c, LAMBDA i : MaxD(dom[vs[i]]), FALSE)
         [] vm = "max_regret" -> Best(c, LAMBDA i : Regret(dom[vs[i]]), FALSE)
         [] OTHER -> 0
(* the order in which a value method tries the values of a domain (a sequence); <<>>: unspecified   *)
RECURSIVE Middle(_)
Middle(l) == IF Len(l) <= 1 THEN l ELSE LET i == Len(l) \div 2 IN <<l[i]>> \o Middle(RemoveAt(l, i))
RECURSIVE Limits(_, _)
Limits(l, low) == IF l = <<>> THEN l ELSE IF low THEN <<Head(l)>> \o Limits(Tail(l), FALSE) ELSE <<Last(l)>> \o Limits(Front(l), TRUE)
TryOrder(l, m) ==
  CASE m \in {"min", "bisect"} -> l
    [] m = "max" -> Reverse(l)
    [] m = "middle" -> Middle(l)
    [] m \in {"limits", "bounds"} -> Limits(l, TRUE)
    [] OTHER -> <<>>
(* the blocks of equal values of the first variable, in order               *)
Blocks(l) == FoldLeft(LAMBDA acc, x : IF acc # <<>> /\ Last(acc) = x THEN acc ELSE Append(acc, x), <<>>, l)
SubseqOf(s, l) == FoldLeft(LAMBDA i, x : IF i <= Len(s) /\ s[i] = x THEN i + 1 ELSE i, 1, l) = Len(s) + 1
LexLt(x, y, vs) == \E i \in 1..Len(vs) : x[vs[i]] < y[vs[i]] /\ \A j \in 1..(i - 1) : x[vs[j]] = y[vs[j]]
(* the order of the solutions l (tuples) of a labeling of the variables vs  *)
OrderOk(l, dom, vs, vm, vals) ==
  LET fv == FirstVar(dom, vs, vm) IN
  /\ (vm = "standard" /\ vals \in {"min", "bisect"}) => \A i \in 1..(Len(l) - 1) : LexLt(l[i], l[i + 1], vs)
  /\ (vm = "standard" /\ vals = "max") => \A i \in 1..(Len(l) - 1) : LexLt(l[i + 1], l[i], vs)
  /\ fv # 0 => LET d == dom[vs[fv]]
                   b == Blocks([i \in 1..Len(l) |-> l[i][vs[fv]]])
                   o == IF d.vals # <<>> THEN TryOrder(d.vals, vals) ELSE <<>> IN
               /\ Cardinality(ToSet(b)) = Len(b)
               \* propagation may remove values between two tries: exact when every value leads to a solution
               /\ o # <<>> /\ (vals \in {"min", "max", "bisect"} \/ Len(b) = Len(o)) => SubseqOf(b, o)
               /\ vals \in {"limits", "bounds"} =>
                    \A i \in 1..Len(b) : (\A j \in (i + 1)..Len(b) : b[i] < b[j]) \/ (\A j \in (i + 1)..Len(b) : b[i] > b[j])
=============================================================================
