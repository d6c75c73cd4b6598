------------------------------ MODULE Machine ------------------------------
(* The abstract Prolog machine: small-step semantics of a query.            *)
(*                                                                          *)
(* State record m:                                                          *)
(*   ph    "run" | "fail" | "throw" | "done" | "skip"                       *)
(*   k     continuation: <<>> or <<goal, cut barrier, continuation>>        *)
(*   b     binding store         tr   trail, oldest entry first             *)
(*   cp    choice-point stack, oldest first; each remembers the height of   *)
(*         the trail (tl) and of the store (nv) when it was made            *)
(*   db    dynamic predicates: <<name, arity>> -> sequence of clauses       *)
(*   gv,ge global variables (Gvar.tla)                                      *)
(*   out   output events so far                                             *)
(*   ball  the ball while ph = "throw"                                      *)
(*   qs    queries still to run, q the current one, nsol its answers so far *)
(*                                                                          *)
(* A clause is [h |-> head, b |-> body, n |-> number of variables].  The    *)
(* static program p maps <<name, arity>> to a sequence of clauses.          *)
EXTENDS Atoms, Dcg
CONSTANTS Ghost,      \* keep copies of the store in choice points (model checking only)
          Limit       \* longest run followed

Fail(m) == [m EXCEPT !.ph = "fail"]
Skip(m, why) == [m EXCEPT !.ph = "skip", !.why = why]
(* the context of an error is left to the implementation; a compound, whose *)
(* arguments stand for anything                                             *)
Ctx == S("/", <<A("$ctx"), A("$ctx")>>)
Throw(m, formal) == [m EXCEPT !.ph = "throw", !.ball = S("error", <<Canon(formal, m.b), Ctx>>)]

(* ------------------------------------------------------------------------ *)
(* choice points                                                            *)
H(m) == Len(m.cp)
CutTo(m, h) == IF H(m) <= h THEN m ELSE [m EXCEPT !.cp = SubSeq(@, 1, h)]
Push(m, kind, k, d) == [m EXCEPT !.cp = Append(@, [kind |-> kind, k |-> k, d |-> d, tl |-> Len(m.tr), nv |-> Len(m.b),
                                                 ghost |-> IF Ghost THEN <<m.b, m.ge>> ELSE <<>>])]

UndoEntry(e, acc) ==
  CASE e[1] = "v" -> acc                        \* variables are reset together below
    [] e[1] = "s" -> [acc EXCEPT !.b[e[2]] = e[3]]
    [] e[1] = "g" -> [acc EXCEPT !.ge[e[2]] = e[3]]
    [] e[1] = "x" -> acc
Restore(m, c) ==          \* undo everything since choice point c was made
  LET new == SubSeq(m.tr, c.tl + 1, Len(m.tr))
      vs == {new[i][2] : i \in {j \in 1..Len(new) : new[j][1] = "v"}}
      others == SelectSeq(new, LAMBDA e : e[1] # "v")
      m1 == FoldRight(UndoEntry, others, m)
  IN [m1 EXCEPT !.tr = SubSeq(@, 1, c.tl), !.b = [i \in 1..c.nv |-> IF i \in vs THEN Unbound ELSE m1.b[i]]]

Emit(m, kind, t) == [m EXCEPT !.out = Append(@, <<kind, Canon(t, m.b)>>)]

(* ------------------------------------------------------------------------ *)
(* clause resolution: the first clause whose head unifies; the others wait  *)
(* in a choice point (a snapshot: the logical update view).                 *)
RECURSIVE TryClauses(_, _, _, _)
TryClauses(m, g, cls, k) ==
  IF cls = <<>> THEN Fail(m)
  ELSE LET c == cls[1]
           off == Len(m.b)
           r == Unify(g, Rename(c.h, off), Grow(m.b, c.n), m.tr)
       IN IF r.cyc THEN Skip(m, "cyclic")
          ELSE IF ~r.ok THEN TryClauses(m, g, Tail(cls), k)
          ELSE LET m1 == IF Len(cls) > 1 THEN Push(m, "cls", k, <<g, Tail(cls)>>) ELSE m
               IN [m1 EXCEPT !.ph = "run", !.b = r.b, !.tr = r.tr,
                             !.k = IF c.b = A("true") THEN k ELSE <<Rename(c.b, off), H(m), k>>]

(* solutions of a non-deterministic built-in: pat is unified with each term *)
(* of sols in turn (terms over the current store; fresh: their variables    *)
(* are clause-like and renamed).                                            *)
RECURSIVE TrySols(_, _, _, _)
TrySols(m, pat, sols, k) ==
  IF sols = <<>> THEN Fail(m)
  ELSE LET r == Unify(pat, sols[1], m.b, m.tr)
       IN IF r.cyc THEN Skip(m, "cyclic")
          ELSE IF ~r.ok THEN TrySols(m, pat, Tail(sols), k)
          ELSE LET m1 == IF Len(sols) > 1 THEN Push(m, "sols", k, <<pat, Tail(sols)>>) ELSE m
               IN [m1 EXCEPT !.ph = "run", !.b = r.b, !.tr = r.tr, !.k = k]

(* clause/2 and retract/1: clauses renamed apart one after the other; a     *)
(* retraction removes the clause found (by its identity) if still there.    *)
RemoveClause(m, key, id) == IF key \notin DOMAIN m.db THEN m
                      ELSE [m EXCEPT !.db[key] = SelectSeq(@, LAMBDA c : c.id # id)]
RECURSIVE TryDb(_, _, _, _, _, _)
TryDb(m, h, body, cls, retract, k) ==
  IF cls = <<>> THEN Fail(m)
  ELSE LET c == cls[1]
           off == Len(m.b)
           r == Unify(S("-", <<h, body>>), S("-", <<Rename(c.h, off), Rename(c.b, off)>>), Grow(m.b, c.n), m.tr)
       IN IF r.cyc THEN Skip(m, "cyclic")
          ELSE IF ~r.ok THEN TryDb(m, h, body, Tail(cls), retract, k)
          ELSE LET m1 == IF Len(cls) > 1 THEN Push(m, "db", k, <<h, body, Tail(cls), retract>>) ELSE m
                   m2 == [m1 EXCEPT !.ph = "run", !.b = r.b, !.tr = r.tr, !.k = k]
               IN IF retract THEN RemoveClause(m2, Key(c.h), c.id) ELSE m2

(* ------------------------------------------------------------------------ *)
(* calling a term: bodies are checked and converted when called             *)
RECURSIVE BodyOk(_, _)
BodyOk(t0, b) == LET t == Deref(t0, b) IN
  IF IsV(t) THEN TRUE
  ELSE IF IsF(t, ",", 2) \/ IsF(t, ";", 2) \/ IsF(t, "->", 2) \/ IsF(t, "*->", 2)
       THEN BodyOk(t[3][1], b) /\ BodyOk(t[3][2], b)
  ELSE IsCallable(t)
RECURSIVE Conv(_, _)              \* variables as goals become call/1
Conv(t0, b) == LET t == Deref(t0, b) IN
  IF IsV(t) THEN S("call", <<t>>)
  ELSE IF IsF(t, ",", 2) \/ IsF(t, ";", 2) \/ IsF(t, "->", 2) \/ IsF(t, "*->", 2)
       THEN S(t[2], <<Conv(t[3][1], b), Conv(t[3][2], b)>>)
  ELSE t
CallTerm(m, g0, k) ==
  LET g == Deref(g0, m.b) IN
  IF IsV(g) THEN Throw(m, InstErr)
  ELSE IF ~BodyOk(g, m.b) THEN Throw(m, TypeErr("callable", g))
  ELSE [m EXCEPT !.ph = "run", !.k = <<Conv(g, m.b), H(m), k>>]
AddArgs(g, extra) == IF IsA(g) THEN S(g[2], extra) ELSE S(g[2], g[3] \o extra)

(* if-then-else, soft cut, negation: the alternative is below the condition *)
IfThenElse(m, c, t, e, cb, k) ==
  LET h == H(m)
      m1 == Push(m, "alt", k, <<e, cb>>)
  IN [m1 EXCEPT !.k = <<c, h + 1, <<S("$cut", <<I(h)>>), 0, <<t, cb, k>>>>>>]
SoftCut(m, c, t, e, cb, k) ==
  LET h == H(m)
      m1 == Push(m, "alt", k, <<e, cb>>)
  IN [m1 EXCEPT !.k = <<c, h + 1, <<S("$soft", <<I(h + 1)>>), 0, <<t, cb, k>>>>>>]

(* collecting solutions: a "find" choice point below the goal keeps them    *)
FindAll(m, tmpl, g, then) ==       \* then: what to do with the list, a term with the list appended
  LET m1 == Push(m, "find", m.k[3], <<then, <<>>>>)
  IN CallTerm(m1, g, <<S("$collect", <<tmpl, I(H(m1))>>), 0, m.k[3]>>)

RECURSIVE RenameAll(_, _, _)       \* rename stored copies apart, allocating their variables
RenameAll(sols, b, acc) ==
  IF sols = <<>> THEN [b |-> b, l |-> acc]
  ELSE LET n == MaxVar(sols[1]) IN RenameAll(Tail(sols), Grow(b, n), Append(acc, Rename(sols[1], Len(b))))

LinkKeys(l, b0) ==                 \* the i-th variables of all the keys are one variable
  FoldLeft(LAMBDA acc, x :
             LET vs == VarsOf(x[3][1], b0)
                 n == IF Len(vs) < Len(acc.vs) THEN Len(vs) ELSE Len(acc.vs)
                 pairs == {<<vs[i], acc.vs[i]>> : i \in 1..n}
             IN [b |-> FoldSet(LAMBDA pr, bb : Unify(V(pr[1]), V(pr[2]), bb, <<>>).b, acc.b, pairs),
                 vs |-> acc.vs \o SubSeq(vs, n + 1, Len(vs))],
           [b |-> b0, vs |-> <<>>], [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]).b
UnifyStep(m, x, y, k) ==
  LET r == Unify(x, y, m.b, m.tr) IN
  IF r.cyc THEN Skip(m, "cyclic") ELSE IF r.ok THEN [m EXCEPT !.ph = "run", !.b = r.b, !.tr = r.tr, !.k = k] ELSE Fail(m)

FindDone(m, then, sols, k) ==      \* m: restored, the choice point popped
  LET r == RenameAll(sols, m.b, <<>>)
      m1 == [m EXCEPT !.b = r.b]
      as == then[3] IN
  CASE then[2] = "findall" -> UnifyStep(m1, as[1], ListOf(r.l, as[2]), k)
    [] then[2] = "countall" -> UnifyStep(m1, as[1], I(Len(sols)), k)
    [] then[2] = "bagof" -> IF sols = <<>> THEN Fail(m) ELSE UnifyStep(m1, as[1], MkList(r.l), k)
    [] then[2] = "setof" -> IF sols = <<>> THEN Fail(m) ELSE IF SortOpen(r.l, m1.b) THEN Skip(m, "var_order")
                                ELSE UnifyStep(m1, as[1], MkList(Sort(r.l, m1.b)), k)
    [] then[2] = "bagofg" \/ then[2] = "setofg" ->   \* grouped by the witness
         IF sols = <<>> THEN Fail(m)
         ELSE LET set == then[2] = "setofg"
                  b1 == LinkKeys(r.l, m1.b)
                  srt == IF set THEN Sort(r.l, b1) ELSE Keysort(r.l, b1)
                  keys == FoldLeft(LAMBDA acc, x : IF \E i \in 1..Len(acc) : Variant(acc[i], x[3][1], b1) THEN acc
                                                   ELSE Append(acc, x[3][1]), <<>>, srt)
                  grp(w) == LET mem == SelectSeq(srt, LAMBDA x : Variant(x[3][1], w, b1))
                            IN S("-", <<w, MkList([i \in 1..Len(mem) |-> mem[i][3][2]])>>)
              IN IF IF set THEN SortOpen(r.l, b1) ELSE KeysortOpen(r.l, b1) THEN Skip(m, "var_order")
                 ELSE TrySols([m1 EXCEPT !.b = b1], S("-", <<as[2], as[1]>>), [i \in 1..Len(keys) |-> grp(keys[i])], k)

RECURSIVE StripEx(_, _)            \* V^G: [g, and the variables of V]
StripEx(t0, b) == LET t == Deref(t0, b) IN
  IF IsF(t, "^", 2) THEN LET r == StripEx(t[3][2], b) IN [g |-> r.g, vs |-> VarsOf(t[3][1], b) \o r.vs]
  ELSE [g |-> t, vs |-> <<>>]
BagOf(m, name, t, g0, l, k) ==
  LET s == StripEx(g0, m.b)
      bound == VarsOf(t, m.b) \o s.vs
      free == SelectSeq(VarsOf(s.g, m.b), LAMBDA v : \A i \in 1..Len(bound) : bound[i] # v)
  IN IF AsList(l, m.b).kind = "no" THEN Throw(m, TypeErr("list", l))
     ELSE IF free = <<>> THEN FindAll(m, t, s.g, S(name, <<l>>))
     ELSE LET w == MkList([i \in 1..Len(free) |-> V(free[i])])
          IN FindAll(m, S("-", <<w, t>>), s.g, S(name \o "g", <<l, w>>))

(* ------------------------------------------------------------------------ *)
(* the dynamic database                                                     *)
HeadBody(c0, b) == LET c == Deref(c0, b) IN
  IF IsF(c, ":-", 2) THEN <<Deref(c[3][1], b), Deref(c[3][2], b)>> ELSE <<c, A("true")>>
MkClause(h, body, b, id) ==
  LET t == S("-", <<h, Conv(body, b)>>)
      c == Canon(t, b)
  IN [h |-> c[3][1], b |-> c[3][2], n |-> Len(VarsOf(t, b)), id |-> id]
PI(key) == S("/", <<A(key[1]), I(key[2])>>)
IsControl(key) == key \in {<<",", 2>>, <<";", 2>>, <<"->", 2>>, <<"*->", 2>>, <<"!", 0>>, <<":-", 2>>}
IsTestName(n) == Len(n) >= 2 /\ SubSeq(n, 1, 1) = "t" /\ SubSeq(n, 2, 2) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ours(key) == IsTestName(key[1]) \/ key[1] \in {"a", "b", "c", "d", "foo", "k", "f", "g", "h", "s"}
IsBuiltin(key) == key \in BuiltinKeys \cup GvarKeys \cup AtomKeys
Foreign(key) == ~Ours(key) /\ ~IsBuiltin(key)      \* a predicate of the system that the model does not describe
AssertC(m, p, c, atEnd) ==
  LET hb == HeadBody(c, m.b) h == hb[1] IN
  IF IsV(h) THEN Throw(m, InstErr)
  ELSE IF ~IsCallable(h) THEN Throw(m, TypeErr("callable", h))
  ELSE IF ~BodyOk(hb[2], m.b) THEN Throw(m, TypeErr("callable", hb[2]))
  ELSE IF Foreign(Key(h)) THEN Skip(m, "foreign")
  ELSE IF Key(h) \in DOMAIN p \/ IsBuiltin(Key(h)) THEN Throw(m, PermErr("modify", "static_procedure", PI(Key(h))))
  ELSE LET cl == MkClause(h, hb[2], m.b, m.nid)
           old == IF Key(h) \in DOMAIN m.db THEN m.db[Key(h)] ELSE <<>>
           new == IF atEnd THEN Append(old, cl) ELSE <<cl>> \o old
       IN [m EXCEPT !.db = (Key(h) :> new) @@ @, !.nid = @ + 1, !.k = @[3]]

DbScan(m, p, h0, body0, retract, k) ==
  LET h == Deref(h0, m.b) body == Deref(body0, m.b) IN
  IF IsV(h) THEN Throw(m, InstErr)
  ELSE IF ~IsCallable(h) THEN Throw(m, TypeErr("callable", h))
  ELSE IF ~IsV(body) /\ ~IsCallable(body) THEN Throw(m, TypeErr("callable", body))
  ELSE IF Foreign(Key(h)) THEN Skip(m, "foreign")
  ELSE IF Key(h) \in DOMAIN p \/ IsBuiltin(Key(h)) THEN
       (IF retract THEN Throw(m, PermErr("modify", "static_procedure", PI(Key(h))))
        ELSE Throw(m, PermErr("access", "private_procedure", PI(Key(h)))))
  ELSE IF Key(h) \notin DOMAIN m.db THEN Fail(m)
  ELSE TryDb(m, h, body, m.db[Key(h)], retract, k)

RetractAll(m, p, h0, k) ==
  LET h == Deref(h0, m.b) IN
  IF IsV(h) THEN Throw(m, InstErr)
  ELSE IF ~IsCallable(h) THEN Throw(m, TypeErr("callable", h))
  ELSE IF Foreign(Key(h)) THEN Skip(m, "foreign")
  ELSE IF Key(h) \in DOMAIN p \/ IsBuiltin(Key(h)) THEN Throw(m, PermErr("modify", "static_procedure", PI(Key(h))))
  ELSE IF Key(h) \notin DOMAIN m.db THEN [m EXCEPT !.k = k]
  ELSE LET uni(c) == Unify(h, Rename(c.h, Len(m.b)), Grow(m.b, c.n), m.tr)
           keep(c) == ~uni(c).ok
       IN IF \E i \in 1..Len(m.db[Key(h)]) : uni(m.db[Key(h)][i]).cyc THEN Skip(m, "cyclic")
          ELSE [m EXCEPT !.db[Key(h)] = SelectSeq(@, keep), !.k = k]

Abolish(m, p, pi0, k) ==
  LET pi == Deref(pi0, m.b) IN
  IF IsV(pi) THEN Throw(m, InstErr)
  ELSE IF ~IsF(pi, "/", 2) THEN Throw(m, TypeErr("predicate_indicator", pi))
  ELSE LET n == Deref(pi[3][1], m.b) a == Deref(pi[3][2], m.b) IN
    IF IsV(n) \/ IsV(a) THEN Throw(m, InstErr)
    ELSE IF ~IsA(n) \/ a[1] # "i" THEN Skip(m, "abolish")
    ELSE LET key == <<n[2], a[2]>> IN
      IF key \in DOMAIN p \/ IsBuiltin(key) THEN Throw(m, PermErr("modify", "static_procedure", PI(key)))
      ELSE [m EXCEPT !.db = [x \in (DOMAIN @) \ {key} |-> @[x]], !.k = k]

(* fill(F, N): the driver's loop assertz(F(1)) .. assertz(F(N)), as one step *)
Fill(m, f0, n0, k) ==
  LET f == Deref(f0, m.b) n == Deref(n0, m.b)
      key == <<f[2], 1>>
      old == IF key \in DOMAIN m.db THEN m.db[key] ELSE <<>>
      new == [i \in 1..n[2] |-> [h |-> S(f[2], <<I(i)>>), b |-> A("true"), n |-> 0, id |-> m.nid + i - 1]]
  IN [m EXCEPT !.db = (key :> (old \o new)) @@ @, !.nid = @ + n[2], !.k = k]

(* grammar rules at run time: phrase/2,3 run the translated body; x_dcg     *)
(* (driver) expands a rule and adds the clause                              *)
Phrase(m, g0, s0, s, k) ==
  IF IsV(Deref(g0, m.b)) THEN Throw(m, InstErr)
  ELSE LET r == DcgBody(g0, s0, s, m.b, Len(m.b))
           m1 == [m EXCEPT !.b = Grow(@, r.n - Len(m.b))] IN
       IF r.e # <<>> THEN Throw(m, r.e)
       ELSE IF ~BodyOk(r.t, m1.b) THEN Throw(m, TypeErr("callable", A("$ctx")))   \* which goal is reported is left open
       ELSE CallTerm(m1, r.t, k)
AssertRule(m, p, r0) ==
  LET rule == Deref(r0, m.b)
      r == DcgRule(rule[3][1], rule[3][2], m.b, Len(m.b)) IN
  IF r.e = A("$open") THEN Skip(m, "order_of_errors")
  ELSE IF r.e # <<>> THEN Throw(m, r.e)
  ELSE AssertC([m EXCEPT !.b = Grow(@, r.n - Len(m.b))], p, S(":-", <<r.h, r.b>>), TRUE)

(* the formal part only of an error term: its context is not specified      *)
EmitBall(m, t0) == LET t == Deref(t0, m.b) IN
  IF IsF(t, "error", 2) THEN Emit(m, "err", t[3][1]) ELSE Emit(m, "ball", t)

(* ------------------------------------------------------------------------ *)
(* the C interface: the foreign predicate scr/1 interprets a script,        *)
(*   q(G,R,F) opens a query on G (R = r: recoverable), n asks for its next  *)
(*   answer, e(M) closes it (r recover, c cut, k keep for Prolog), u(A,B)   *)
(*   and m(A,B) unify (with a copy of B built in C), l(T) reports T, x(T)   *)
(*   throws, g(G) continues with G, f fails.                                *)
(* An open query is a "qbar" choice point whose d is <<id, recoverable, F,  *)
(* script, its next op, open queries>>; its goal ends with $qok(id).    *)
(* A query that fails or ends with an exception is closed at once: with F = *)
(* r (recovered) or g (cut; the generator gives it a ground goal, since the  *)
(* bindings then remain) the script goes on after its e(_), otherwise scr/1  *)
(* itself fails or throws, the other queries being cut.  When the script ends the first of  *)
(* the queries still open is kept for Prolog and the others are cut.        *)
BarOf(m, id) == LET s == {i \in 1..H(m) : m.cp[i].kind = "qbar" /\ m.cp[i].d[1] = id}
                IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
CutQueries(m, opens) == IF opens = <<>> THEN m ELSE CutTo(m, BarOf(m, opens[1]) - 1)
Front1(q) == SubSeq(q, 1, Len(q) - 1)
OpsOf(t) == IF IsS(t) THEN t[3] ELSE <<>>         \* a script is s(Op, ...) or s
RECURSIVE SkipOps(_, _, _, _)
SkipOps(ops, i, d, b) ==
  IF i > Len(ops) \/ d = 0 THEN i
  ELSE LET o == Deref(ops[i], b) IN
       SkipOps(ops, i + 1, IF IsF(o, "q", 3) THEN d + 1 ELSE IF IsF(o, "e", 1) THEN d - 1 ELSE d, b)
ScrStep(m, ops, i, opens, k) ==
  IF i > Len(ops) THEN
     IF opens = <<>> THEN [m EXCEPT !.k = k]
     ELSE LET m1 == CutQueries(m, Tail(opens))
          IN [m1 EXCEPT !.k = k, !.cp[BarOf(m1, opens[1])].kind = "dead"]
  ELSE
  LET op == Deref(ops[i], m.b)
      f == op[2]
      as == IF IsS(op) THEN op[3] ELSE <<>>
      go(m1, os) == [m1 EXCEPT !.k = <<S("$scr", ops), <<i + 1, os>>, k>>]
      bar == IF opens = <<>> THEN 0 ELSE BarOf(m, opens[Len(opens)]) IN
  CASE f = "l" -> go(Emit(m, "ev", as[1]), opens)
    [] f = "u" \/ f = "m" ->
         LET r == Unify(as[1], as[2], m.b, m.tr) IN
         IF r.cyc THEN Skip(m, "cyclic")
         ELSE IF ~r.ok THEN Fail(CutQueries(m, opens))
         ELSE go([m EXCEPT !.b = r.b, !.tr = r.tr], opens)
    [] f = "q" ->
         LET os == Append(opens, m.nq + 1)
             m1 == Push([m EXCEPT !.nq = @ + 1], "qbar", k, <<m.nq + 1, Deref(as[2], m.b) = A("r"), Deref(as[3], m.b)[2], ops, i + 1, os>>)
         IN [m1 EXCEPT !.k = <<S("call", <<as[1]>>), 0, <<S("$qok", <<I(m.nq + 1)>>), 0, k>>>>]
    [] f = "n" -> IF opens = <<>> THEN go(m, opens) ELSE Fail([m EXCEPT !.cp[bar].d[5] = i + 1])
    [] f = "e" ->
         LET how == Deref(as[1], m.b)[2] IN
         IF opens = <<>> THEN go(m, opens)
         ELSE IF how = "r" /\ m.cp[bar].d[2] THEN go(CutTo(Restore(m, m.cp[bar]), bar - 1), Front1(opens))
         ELSE IF how = "k" THEN (IF Len(opens) > 1 THEN Skip(m, "kept inside a query")
                                 ELSE go([m EXCEPT !.cp[bar].kind = "dead"], <<>>))
         ELSE go(CutTo(m, bar - 1), Front1(opens))
    [] f = "x" -> LET m1 == CutQueries(m, opens) IN [m1 EXCEPT !.ph = "throw", !.ball = Canon(as[1], m.b), !.k = k]
    [] f = "g" -> [CutQueries(m, opens) EXCEPT !.k = <<S("call", <<as[1]>>), 0, k>>]
    [] f = "f" -> Fail(CutQueries(m, opens))
    [] OTHER -> Skip(m, "script")
QResult(m, r) == Emit(m, "ev", S("r", <<I(r)>>))
QueryAnswer(m, id, k) ==
  LET i == BarOf(m, id) IN
  IF i = 0 THEN [m EXCEPT !.k = k]                    \* an alternative kept for Prolog
  ELSE [QResult(m, 1) EXCEPT !.k = <<S("$scr", m.cp[i].d[4]), <<m.cp[i].d[5], m.cp[i].d[6]>>, m.cp[i].k>>]
(* c, the query, has failed or thrown (m: restored and popped)              *)
QueryClosed(m, c, thrown) ==
  IF (c.d[2] /\ c.d[3] = "r") \/ c.d[3] = "g"
  THEN [m EXCEPT !.ph = "run", !.k = <<S("$scr", c.d[4]), <<SkipOps(c.d[4], c.d[5], 1, m.b), Front1(c.d[6])>>, c.k>>]
  ELSE LET m1 == CutQueries(m, Front1(c.d[6]))
       IN IF thrown THEN [m1 EXCEPT !.ph = "throw", !.k = c.k] ELSE Fail(m1)
(* scrnd/1, non-deterministic: one script per call; its counter and saved   *)
(* state are reported                                                       *)
NdStep(m, l0, n, buf, k) ==
  LET l == OpsOf(Deref(l0, m.b))
      m1 == Emit(m, "ev", S("nd", <<I(n), I(buf)>>)) IN
  IF l = <<>> THEN Fail(m1)
  ELSE LET m2 == IF n + 1 = Len(l) THEN m1 ELSE Push(m1, "alt", k, <<S("$nd", <<l0, I(n + 1), I(buf + n + 1)>>), 0>>)
       IN [m2 EXCEPT !.k = <<S("$scr", OpsOf(Deref(l[n + 1], m.b))), <<1, <<>>>>, k>>]

(* ------------------------------------------------------------------------ *)
(* one step                                                                 *)
MaxArity == 255
CallN(m, g0, extra, k) ==
  LET g == Deref(g0, m.b) IN
  IF IsV(g) THEN Throw(m, InstErr)
  ELSE IF ~IsCallable(g) THEN Throw(m, TypeErr("callable", g))
  ELSE CallTerm(m, AddArgs(g, extra), k)

IsCtl(key) == key \in
  {<<"true", 0>>, <<",", 2>>, <<"!", 0>>, <<";", 2>>, <<"->", 2>>, <<"*->", 2>>, <<"\\+", 1>>, <<"fail", 0>>, <<"false", 0>>,
   <<"once", 1>>, <<"repeat", 0>>, <<"catch", 3>>, <<"throw", 1>>, <<"findall", 3>>, <<"findall", 4>>,
   <<"bagof", 3>>, <<"setof", 3>>, <<"forall", 2>>, <<"countall", 2>>, <<"call_nth", 2>>, <<"$nth", 3>>,
   <<"assertz", 1>>, <<"asserta", 1>>, <<"retract", 1>>, <<"retractall", 1>>, <<"clause", 2>>, <<"abolish", 1>>,
   <<"ev", 1>>, <<"reload", 0>>, <<"evb", 1>>, <<"fill", 2>>, <<"$throw", 1>>, <<"phrase", 2>>, <<"phrase", 3>>, <<"x_dcg", 1>>,
   <<"$cut", 1>>, <<"$soft", 1>>, <<"$exit", 1>>, <<"$collect", 2>>,
   <<"scr", 1>>, <<"scrnd", 1>>, <<"$qok", 1>>, <<"$nd", 3>>}

Control(m, p, g, key, cb, k) ==
  LET as == IF IsS(g) THEN g[3] ELSE <<>> 
      go(k2) == [m EXCEPT !.k = k2]
      f == key[1] IN
  CASE f = "true" -> go(k)
    [] f = "," -> go(<<as[1], cb, <<as[2], cb, k>>>>)
    [] f = "!" -> CutTo(go(k), cb)
    [] f = "$cut" -> CutTo(go(k), as[1][2])
    [] f = "$soft" -> [go(k) EXCEPT !.cp[as[1][2]].kind = "dead"]
    [] f = ";" -> LET c == Deref(as[1], m.b) IN
                  IF IsF(c, "->", 2) THEN IfThenElse(m, c[3][1], c[3][2], as[2], cb, k)
                  ELSE IF IsF(c, "*->", 2) THEN SoftCut(m, c[3][1], c[3][2], as[2], cb, k)
                  ELSE [Push(m, "alt", k, <<as[2], cb>>) EXCEPT !.k = <<c, cb, k>>]
    [] f = "->" -> IfThenElse(m, as[1], as[2], A("fail"), cb, k)
    [] f = "*->" -> SoftCut(m, as[1], as[2], A("fail"), cb, k)
    [] f = "\\+" -> IfThenElse(m, S("call", <<as[1]>>), A("fail"), A("true"), cb, k)
    [] f = "fail" \/ f = "false" -> Fail(m)
    [] f = "once" -> CallTerm(m, S("->", <<S("call", <<as[1]>>), A("true")>>), k)
    [] f = "repeat" -> Push(go(k), "repeat", k, <<>>)
    [] f = "catch" -> LET m1 == Push(m, "catch", k, <<as[2], as[3]>>)
                      IN CallTerm(m1, as[1], <<S("$exit", <<I(H(m1))>>), 0, k>>)
    [] f = "$exit" -> IF H(m) = as[1][2] THEN CutTo(go(k), as[1][2] - 1) ELSE go(k)
    [] f = "throw" -> IF IsV(Deref(as[1], m.b)) THEN Throw(m, InstErr)
                      ELSE [m EXCEPT !.ph = "throw", !.ball = Canon(as[1], m.b)]
    [] f = "findall" -> LET tl == IF key[2] = 4 THEN as[4] ELSE Nil IN
                        IF AsList(as[3], m.b).kind = "no" THEN Throw(m, TypeErr("list", as[3]))
                        ELSE IF AsList(tl, m.b).kind = "no" THEN Throw(m, TypeErr("list", tl))
                        ELSE FindAll(m, as[1], as[2], S("findall", <<as[3], tl>>))
    [] f = "$collect" -> Fail([m EXCEPT !.cp[as[2][2]].d[2] = Append(@, Canon(as[1], m.b))])
    [] f = "bagof" \/ f = "setof" -> BagOf(m, f, as[1], as[2], as[3], k)
    [] f = "forall" -> IfThenElse(m, S(",", <<S("call", <<as[1]>>), S("\\+", <<as[2]>>)>>), A("fail"), A("true"), cb, k)
    [] f = "countall" -> LET n == Deref(as[2], m.b) IN
                         IF ~IsV(n) /\ ~IsInt(n) THEN Throw(m, TypeErr("integer", n))
                         ELSE IF n[1] = "i" /\ n[2] < 0 THEN Throw(m, DomErr("not_less_than_zero", n))
                         ELSE FindAll(m, A("x"), as[1], S("countall", <<as[2]>>))
    [] f = "assertz" -> AssertC(m, p, as[1], TRUE)
    [] f = "asserta" -> AssertC(m, p, as[1], FALSE)
    [] f = "clause" -> DbScan(m, p, as[1], as[2], FALSE, k)
    [] f = "retract" -> LET hb == HeadBody(as[1], m.b) IN DbScan(m, p, hb[1], hb[2], TRUE, k)
    [] f = "retractall" -> RetractAll(m, p, as[1], k)
    [] f = "abolish" -> Abolish(m, p, as[1], k)
    [] f = "ev" -> Emit(go(k), "ev", as[1])
    [] f = "reload" -> go(k)                 \* loading the same text again changes nothing
    [] f = "$throw" -> Throw(m, as[1])
    [] f = "evb" -> EmitBall(go(k), as[1])
    [] f = "phrase" -> Phrase(m, as[1], as[2], IF key[2] = 3 THEN as[3] ELSE Nil, k)
    [] f = "x_dcg" -> AssertRule(m, p, as[1])
    [] f = "fill" -> Fill(m, as[1], as[2], k)
    [] f = "scr" -> [m EXCEPT !.k = <<S("$scr", OpsOf(Deref(as[1], m.b))), <<1, <<>>>>, k>>]
    [] f = "$qok" -> QueryAnswer(m, as[1][2], k)
    [] f = "scrnd" -> NdStep(m, as[1], 0, 100, k)
    [] f = "$nd" -> NdStep(m, as[1], as[2][2], as[3][2], k)
    [] OTHER -> Skip(m, "control")

(* results of built-ins *)
Apply(m, r, k) ==
  CASE r.st = "ok" -> [m EXCEPT !.b = r.b, !.tr = r.tr, !.k = k]
    [] r.st = "fail" -> Fail(m)
    [] r.st = "err" -> Throw(m, r.e)
    [] r.st = "skip" -> Skip(m, r.e[2])
    [] r.st = "sols" -> TrySols([m EXCEPT !.b = r.b], r.pat, r.sols, k)

(* ------------------------------------------------------------------------ *)
(* queries: [g |-> goal, vs |-> sequence of terms, n |-> variables, max |-> answers wanted] *)
StartQuery(m) ==
  LET q == m.qs[1] IN
  [m EXCEPT !.ph = "run", !.qs = Tail(@), !.q = q, !.nsol = 0, !.cp = <<>>, !.tr = <<>>, !.ball = Nil,
            !.b = [i \in 1..q.n |-> Unbound], !.k = <<S("call", <<q.g>>), 0, <<>>>>, !.out = Append(@, <<"query", Nil>>)]
EndQuery(m0) == LET m == Restore(m0, [tl |-> 0, nv |-> 0]) IN IF m.qs = <<>> THEN [m EXCEPT !.ph = "done", !.cp = <<>>, !.b = <<>>, !.tr = <<>>, !.k = <<>>] ELSE StartQuery(m)
Solution(m) ==
  LET m1 == [Emit(m, "sol", MkList(m.q.vs)) EXCEPT !.nsol = @ + 1] IN
  IF m1.nsol >= m.q.max THEN EndQuery([m1 EXCEPT !.out = Append(@, <<"stop", Nil>>)]) ELSE Fail(m1)

(* ------------------------------------------------------------------------ *)
(* backtracking: resume the newest alternative                              *)
StepFail(m) ==
  IF m.cp = <<>> THEN EndQuery([m EXCEPT !.out = Append(@, <<"no", Nil>>)])
  ELSE LET c == m.cp[H(m)]
           m1 == [Restore(m, c) EXCEPT !.cp = SubSeq(@, 1, H(m) - 1)]
       IN CASE c.kind = "cls" -> TryClauses(m1, c.d[1], c.d[2], c.k)
            [] c.kind = "alt" -> [m1 EXCEPT !.ph = "run", !.k = <<c.d[1], c.d[2], c.k>>]
            [] c.kind = "sols" -> TrySols(m1, c.d[1], c.d[2], c.k)
            [] c.kind = "db" -> TryDb(m1, c.d[1], c.d[2], c.d[3], c.d[4], c.k)
            [] c.kind = "find" -> FindDone([m1 EXCEPT !.ph = "run"], c.d[1], c.d[2], c.k)
            [] c.kind = "repeat" -> [m1 EXCEPT !.ph = "run", !.k = c.k, !.cp = m.cp]
            [] c.kind = "catch" \/ c.kind = "dead" -> m1
            [] c.kind = "qbar" -> QueryClosed(QResult(m1, 0), c, FALSE)

(* a ball: the innermost catch/3 still being executed is the first $exit    *)
(* marker of the continuation                                               *)
RECURSIVE FindCatch(_, _)         \* or the query opened by C
FindCatch(m, k) == IF k = <<>> THEN 0 ELSE IF IsF(k[1], "$exit", 1) THEN k[1][3][1][2]
                   ELSE IF IsF(k[1], "$qok", 1) /\ BarOf(m, k[1][3][1][2]) # 0 THEN BarOf(m, k[1][3][1][2])
                   ELSE FindCatch(m, k[3])
EmitThrown(m) == [m EXCEPT !.out = IF IsF(m.ball, "error", 2) THEN Append(@, <<"err", Canon(m.ball[3][1], Grow(<<>>, MaxVar(m.ball)))>>)
                                   ELSE Append(@, <<"ball", m.ball>>)]
RECURSIVE HasCtx(_, _)
HasCtx(t0, b) == LET t == Deref(t0, b) IN t = A("$ctx") \/ (IsS(t) /\ \E i \in 1..Len(t[3]) : HasCtx(t[3][i], b))
StepThrow(m) ==
  LET i == FindCatch(m, m.k) IN
  IF i = 0 THEN EndQuery(EmitThrown(m))
  ELSE IF m.cp[i].kind = "qbar" THEN
       LET c == m.cp[i]
           m1 == [Restore(m, c) EXCEPT !.cp = SubSeq(@, 1, i - 1)]
       IN QueryClosed(EmitThrown(QResult(m1, 2)), c, TRUE)
  ELSE LET c == m.cp[i]
           m1 == [Restore(m, c) EXCEPT !.cp = SubSeq(@, 1, i - 1)]
           off == Len(m1.b)
           r == Unify(Rename(m.ball, off), c.d[1], Grow(m1.b, MaxVar(m.ball)), m1.tr)
       IN IF r.cyc THEN Skip(m, "cyclic")
          ELSE IF HasCtx(c.d[1], m1.b) THEN Skip(m, "context")     \* unknown contexts are compared
          ELSE IF r.ok THEN CallTerm([m1 EXCEPT !.ph = "run", !.b = r.b, !.tr = r.tr, !.k = c.k], c.d[2], c.k)
          ELSE [m1 EXCEPT !.k = c.k]

Unknown(m, key) == IF ~Ours(key) THEN Skip(m, "not modelled: " \o key[1]) ELSE Throw(m, <<"s", "existence_error", <<A("procedure"), PI(key)>>>>)

StepRun(m, p) ==
  IF m.k = <<>> THEN Solution(m)
  ELSE LET g == Deref(m.k[1], m.b)
           key == Key(g) IN
    IF IsV(g) THEN Throw(m, InstErr)
    ELSE IF ~IsCallable(g) THEN Throw(m, TypeErr("callable", g))
    ELSE IF key[1] = "$scr" THEN ScrStep(m, g[3], m.k[2][1], m.k[2][2], m.k[3])
    ELSE IF key \in DOMAIN p THEN TryClauses(m, g, p[key], m.k[3])
    ELSE IF key \in DOMAIN m.db THEN TryClauses(m, g, m.db[key], m.k[3])
    ELSE IF key[1] = "call" /\ key[2] >= 1 THEN
         (IF key[2] = 1 THEN CallTerm(m, g[3][1], m.k[3]) ELSE CallN(m, g[3][1], Tail(g[3]), m.k[3]))
    ELSE IF IsCtl(key) THEN Control(m, p, g, key, m.k[2], m.k[3])
    ELSE IF key \in GvarKeys THEN
         LET r == GvarStep(key, g[3], m) IN
         CASE r.st = "ok" -> [r.m EXCEPT !.k = m.k[3]]
           [] r.st = "fail" -> Fail(r.m)
           [] r.st = "err" -> Throw(r.m, r.e)
           [] r.st = "skip" -> Skip(m, r.e)
    ELSE IF IsBuiltin(key) THEN Apply(m, IF key \in AtomKeys THEN AtomDet(key, g[3], m) ELSE Det(key, IF IsS(g) THEN g[3] ELSE <<>>, m), m.k[3])
    ELSE Unknown(m, key)
Step(m0, p) ==
  LET m == [m0 EXCEPT !.steps = @ + 1] IN
  IF m.steps > Limit \/ Len(m.b) > 600 THEN Skip(m, "limit")
  ELSE CASE m.ph = "run" -> StepRun(m, p)
         [] m.ph = "fail" -> StepFail(m)
         [] m.ph = "throw" -> StepThrow(m)

InitMachine(t, db, queries) ==
  StartQuery([t |-> t, ph |-> "run", k |-> <<>>, b |-> <<>>, tr |-> <<>>, cp |-> <<>>, db |-> db, gv |-> <<>>, ge |-> <<>>, nid |-> 1000000,
              out |-> <<>>, ball |-> Nil, why |-> "", qs |-> queries, q |-> <<>>, nsol |-> 0, steps |-> 0, nq |-> 0])
Halted(m) == m.ph \in {"done", "skip"}
=============================================================================
