------------------------------- MODULE Terms -------------------------------
(* Prolog terms, the binding store, unification, ordering, copying.         *)
(*                                                                          *)
(* A term is a tagged tuple (the tag always comes first, so that TLC can    *)
(* compare any two terms):                                                  *)
(*   <<"v", n>>        variable n of the binding store                      *)
(*   <<"a", name>>     atom                                                 *)
(*   <<"i", n>>        integer that fits in a TLC integer                   *)
(*   <<"I", digits>>   any other integer (opaque, canonical decimal text)   *)
(*   <<"f", text>>     float (opaque, canonical text)                       *)
(*   <<"s", f, args>>  compound; a list cell is <<"s", ".", <<H, T>>>>      *)
(* The store b is a sequence: b[n] = <<>> while variable n is unbound, else *)
(* the term it is bound to.                                                 *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Unbound == <<>>
V(n) == <<"v", n>>
A(x) == <<"a", x>>
I(n) == <<"i", n>>
S(f, as) == <<"s", f, as>>
Nil == A("[]")
LCons(h, t) == <<"s", ".", <<h, t>>>>
IsV(t) == t[1] = "v"
IsA(t) == t[1] = "a"
IsS(t) == t[1] = "s"
IsInt(t) == t[1] = "i" \/ t[1] = "I"
IsNum(t) == IsInt(t) \/ t[1] = "f"
IsAtomic(t) == ~IsV(t) /\ ~IsS(t)
IsCallable(t) == IsA(t) \/ IsS(t)
Arity(t) == IF IsS(t) THEN Len(t[3]) ELSE 0
Key(t) == <<t[2], Arity(t)>>
IsF(t, f, n) == t[1] = "s" /\ t[2] = f /\ Len(t[3]) = n
IsCons(t) == IsF(t, ".", 2)

ListOf(seq, tail) == FoldRight(LAMBDA x, acc: LCons(x, acc), seq, tail)
MkList(seq) == ListOf(seq, Nil)

RECURSIVE Deref(_, _)
Deref(t, b) == IF t[1] # "v" THEN t
               ELSE IF b[t[2]] = Unbound THEN t ELSE Deref(b[t[2]], b)

RECURSIVE Resolve(_, _)           \* replace every bound variable
Resolve(t0, b) ==
  LET t == Deref(t0, b) IN
  IF t[1] = "s" THEN <<"s", t[2], [i \in 1..Len(t[3]) |-> Resolve(t[3][i], b)]>> ELSE t

RECURSIVE Rename(_, _)            \* clause variables 1..n become off+1..off+n
Rename(t, off) ==
  IF t[1] = "s" THEN <<"s", t[2], [i \in 1..Len(t[3]) |-> Rename(t[3][i], off)]>>
  ELSE IF t[1] = "v" THEN <<"v", t[2] + off>> ELSE t

RECURSIVE Occurs(_, _, _)
Occurs(v, t0, b) ==
  LET t == Deref(t0, b) IN
  IF t[1] = "v" THEN t[2] = v
  ELSE IF t[1] = "s" THEN \E i \in 1..Len(t[3]) : Occurs(v, t[3][i], b)
  ELSE FALSE

(* Unification.  Result [ok, b, tr, cyc]: tr is the trail (<<"v", n>> for a *)
(* bound variable, oldest first); cyc: a cyclic term would have been made (the standard     *)
(* leaves that case open).                                                  *)
Bind(v, t, r) == IF Occurs(v, t, r.b) THEN [r EXCEPT !.ok = FALSE, !.cyc = TRUE]
                 ELSE [r EXCEPT !.b[v] = t, !.tr = Append(@, <<"v", v>>)]
RECURSIVE U(_, _, _)
U(x, y, r) ==
  IF ~r.ok THEN r ELSE
  LET s == Deref(x, r.b)
      t == Deref(y, r.b) IN
  IF s = t THEN r
  ELSE IF s[1] = "v" THEN
     IF t[1] = "v" /\ t[2] > s[2] THEN [r EXCEPT !.b[t[2]] = s, !.tr = Append(@, <<"v", t[2]>>)]
     ELSE Bind(s[2], t, r)
  ELSE IF t[1] = "v" THEN Bind(t[2], s, r)
  ELSE IF s[1] = "s" /\ t[1] = "s" /\ s[2] = t[2] /\ Len(s[3]) = Len(t[3])
     THEN FoldLeft(LAMBDA acc, i : U(s[3][i], t[3][i], acc), r, [i \in 1..Len(s[3]) |-> i])
  ELSE [r EXCEPT !.ok = FALSE]
Unify(x, y, b, tr) == U(x, y, [ok |-> TRUE, b |-> b, tr |-> tr, cyc |-> FALSE])

(* Variables of a term in depth-first left-to-right order, each once.       *)
RECURSIVE VarsAcc(_, _, _)
VarsAcc(t0, b, acc) ==
  LET t == Deref(t0, b) IN
  IF t[1] = "v" THEN (IF \E i \in 1..Len(acc) : acc[i] = t[2] THEN acc ELSE Append(acc, t[2]))
  ELSE IF t[1] = "s" THEN FoldLeft(LAMBDA a, u : VarsAcc(u, b, a), acc, t[3])
  ELSE acc
VarsOf(t, b) == VarsAcc(t, b, <<>>)

PosIn(x, seq) == CHOOSE i \in 1..Len(seq) : seq[i] = x

RECURSIVE Number(_, _, _)         \* variable vs[i] becomes <<"v", i + off>>
Number(t0, b, f) ==
  LET t == Deref(t0, b) IN
  IF t[1] = "v" THEN <<"v", f[t[2]]>>
  ELSE IF t[1] = "s" THEN <<"s", t[2], [i \in 1..Len(t[3]) |-> Number(t[3][i], b, f)]>>
  ELSE t
(* The term with its variables numbered off+1.. by first occurrence.        *)
CanonAt(t, b, off) ==
  LET vs == VarsOf(t, b)
      f == [v \in {vs[i] : i \in 1..Len(vs)} |-> PosIn(v, vs) + off]
  IN Number(t, b, f)
Canon(t, b) == CanonAt(t, b, 0)
(* A fresh copy: [t, b] with the new variables allocated in b.              *)
Grow(b, n) == b \o [i \in 1..n |-> Unbound]
CopyTerm(t, b) ==
  LET n == Len(VarsOf(t, b)) IN [t |-> CanonAt(t, b, Len(b)), b |-> Grow(b, n)]
(* A list term as a sequence.  kind: "list", "partial" or "no"; items; tail *)
RECURSIVE ListAcc(_, _, _)
ListAcc(t0, b, acc) ==
  LET t == Deref(t0, b) IN
  IF IsCons(t) THEN ListAcc(t[3][2], b, Append(acc, t[3][1]))
  ELSE [kind |-> IF t = Nil THEN "list" ELSE IF IsV(t) THEN "partial" ELSE "no", items |-> acc, tail |-> t]
AsList(t, b) == ListAcc(t, b, <<>>)

(* Are two stored terms variants (equal up to renaming of variables)?       *)
Variant(x, y, b) == Canon(x, b) = Canon(y, b)
RECURSIVE Ground(_, _)
Ground(t0, b) == LET t == Deref(t0, b) IN
  IF IsV(t) THEN FALSE ELSE IF IsS(t) THEN \A i \in 1..Len(t[3]) : Ground(t[3][i], b) ELSE TRUE
=============================================================================
