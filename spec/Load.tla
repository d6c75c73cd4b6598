---------------------------- MODULE Load ----------------------------
(* Loading of source files.  A load is an agenda of frames:             *)
(*   files: source files still to load, in order                        *)
(*   comp:  a file being read: the stack of open (included) files, the  *)
(*          conditional-compilation stack, the declarations made, the   *)
(*          groups of clauses collected, the directives recorded        *)
(*   load:  the compiled predicates still to install in the database    *)
(*   dirs:  the recorded directives still to run                        *)
(* One step treats one item of a source, installs one predicate or runs *)
(* one directive.  Messages and marks are collected in order.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
Str(n) == ToString(n)
Tx == "term_expansion/2"

(* the database: predicate -> entry *)
Has(db, p) == p \in DOMAIN db
Ids(cls) == [i \in 1..Len(cls) |-> cls[i].id]
Put(db, p, e) == [q \in DOMAIN db \cup {p} |-> IF q = p THEN e ELSE db[q]]
Del(db, p) == [q \in DOMAIN db \ {p} |-> db[q]]
(* installing the clauses of a predicate that a file defines: all of them belong to the file of the first one *)
Install(db, d) ==
  LET cl == [i \in 1..Len(d.cls) |-> [id |-> d.cls[i].id, file |-> d.file]]
      new == [dyn |-> d.dyn, pub |-> d.pub \/ d.dyn, mf |-> d.mf, nat |-> FALSE, file |-> d.file, line |-> d.line, cls |-> cl]
  IN IF Has(db, d.p) /\ db[d.p].nat THEN db
     ELSE IF ~Has(db, d.p) \/ ~d.mf THEN Put(db, d.p, new)
     ELSE LET e == db[d.p]
              keep == IF e.mf THEN SelectSeq(e.cls, LAMBDA c : c.file # d.file) ELSE <<>>
          IN Put(db, d.p, [e EXCEPT !.dyn = @ \/ d.dyn, !.pub = @ \/ d.pub \/ d.dyn, !.mf = TRUE, !.cls = keep \o cl])
(* messages about a predicate that another file defined *)
Redef(db, d) ==
  IF Has(db, d.p) /\ db[d.p].nat THEN <<<<"native", d.file, Str(d.line), "", d.p>>>>
  ELSE IF Has(db, d.p) /\ ~(d.mf /\ db[d.p].mf) /\ db[d.p].file # "" /\ db[d.p].file # d.file
  THEN <<<<"redef", d.file, Str(d.line), "", d.p>>, <<"prev", db[d.p].file, Str(db[d.p].line), "", "">>>>
  ELSE <<>>

(* -- reading a source --                                                *)
Comp(path, env, nat, cwd) ==
  [k |-> "comp", nat |-> nat, cwd |-> cwd, main |-> path, stk |-> <<[path |-> path, i |-> 1, inc |-> 0]>>, pp |-> <<>>, fl |-> {<<Tx, "dyn">>} \cup (IF nat THEN {} ELSE {<<Tx, "discontig">>}), outp |-> <<>>, buf |-> <<>>, emp |-> <<>>,
   sys |-> <<>>, usr |-> <<>>, cur |-> <<>>, raw |-> <<>>, nerr |-> 0, ops |-> env.ops, sw |-> env.sw, tx |-> env.tx]
Fl(c, p, f) == <<p, f>> \in c.fl
Ignoring(c) == c.pp # <<>> /\ Head(c.pp).a # "keep"
(* a message about lines l1-l2 of the file being read *)
Incs(stk) == IF Len(stk) = 1 THEN <<>> ELSE [i \in 1..(Len(stk) - 1) |-> LET j == Len(stk) - i + 1 IN <<"inc", stk[j].path, Str(stk[j].inc), "", "">>]
Msg(c, k, l1, l2, text) == Incs(c.stk) \o <<<<k, Head(c.stk).path, Str(l1), Str(l2), text>>>>
FlushCur(c) == IF c.cur = <<>> THEN c ELSE [c EXCEPT !.outp = Append(@, c.cur[1]), !.cur = <<>>]
(* the entry of a group of clauses as declared *)
Entry(c, g) == [p |-> g.p, file |-> g.file, line |-> g.line, cls |-> g.cls, dyn |-> Fl(c, g.p, "dyn"), pub |-> Fl(c, g.p, "pub"), mf |-> Fl(c, g.p, "mf")]
(* the clauses of discontiguous predicates, grouped in order of first appearance *)
Groups(buf) ==
  FoldLeft(LAMBDA gs, x : IF \E i \in 1..Len(gs) : gs[i].p = x.p
                          THEN [i \in 1..Len(gs) |-> IF gs[i].p = x.p THEN [gs[i] EXCEPT !.cls = Append(@, x.cls[1])] ELSE gs[i]]
                          ELSE Append(gs, x), <<>>, buf)
Finish(c0) ==
  LET c == FlushCur(c0)
      gs == c.outp \o Groups(c.buf) \o SelectSeq(c.emp, LAMBDA g : ~Fl(c, g.p, "def"))
  IN [preds |-> [i \in 1..Len(gs) |-> Entry(c, gs[i])], sys |-> c.sys, usr |-> c.usr]

(* declarations: a flag of a predicate already defined is refused *)
Declare(c, f, ps, l1, l2) ==
  LET bad(p) == ~Fl(c, p, f) /\ Fl(c, p, "def")
      ws == SelectSeq(ps, bad)
  IN [c |-> [c EXCEPT !.fl = @ \cup {<<p, f>> : p \in {p \in ToSet(ps) : ~bad(p)}}],
      m |-> FoldLeft(LAMBDA m, p : m \o Msg(c, "warn", l1, l2, "directive occurs after definition of " \o p \o " - directive ignored"), <<>>, ws)]
Empties(c, ps, l1) ==
  [c EXCEPT !.emp = FoldLeft(LAMBDA e, p : IF \E i \in 1..Len(e) : e[i].p = p THEN e ELSE Append(e, [p |-> p, file |-> Head(c.stk).path, line |-> l1, cls |-> <<>>]), c.emp, ps)]
(* one clause of p *)
Clause(c0, it, l1, l2) ==
  LET p == it.p
      me == [id |-> it.id, file |-> Head(c0.stk).path]
      g == [p |-> p, file |-> Head(c0.stk).path, line |-> l1, cls |-> <<me>>]
      c1 == IF p = Tx THEN [c0 EXCEPT !.tx = Append(@, it.id)] ELSE c0
      sing == IF it.sing # "" /\ c1.sw THEN Msg(c1, "warn", l1, l2, "singleton variables [" \o it.sing \o "]") ELSE <<>>
  IN IF c1.cur # <<>> /\ c1.cur[1].p = p THEN [c |-> [c1 EXCEPT !.cur = <<[@[1] EXCEPT !.cls = Append(@, me)]>>], m |-> sing]
     ELSE LET c == FlushCur(c1) IN
          IF Fl(c, p, "discontig") THEN [c |-> [c EXCEPT !.buf = Append(@, g), !.fl = @ \cup {<<p, "def">>}], m |-> sing]
          ELSE IF Fl(c, p, "def") THEN [c |-> c, m |-> sing \o Msg(c, "warn", l1, l2, "discontiguous predicate " \o p \o " - clause ignored")]
          ELSE [c |-> [c EXCEPT !.cur = <<g>>, !.fl = @ \cup {<<p, "def">>}], m |-> sing]
(* goals of conditions: "true", "fail", "throw", or a test of the operators or flags *)
Cond(c, g) == CASE g[1] = "true" -> "yes" [] g[1] = "fail" -> "no" [] g[1] = "throw" -> "exc"
                [] g[1] = "op" -> IF g[2] \in c.ops THEN "yes" ELSE "no"
                [] g[1] = "noop" -> IF g[2] \in c.ops THEN "no" ELSE "yes"
                [] g[1] = "sw" -> IF c.sw THEN "yes" ELSE "no"
PpIf(c, it, what, rest, l1, l2) ==
  LET r == Cond(c, it.g) IN
  [c |-> [c EXCEPT !.pp = <<[w |-> "then", a |-> IF r = "yes" THEN "keep" ELSE "ignore"]>> \o rest],
   m |-> IF r = "exc" THEN Msg(c, "warn", l1, l2, what \o " directive raised exception: oops") ELSE <<>>]
SetPp(c, w, a) == [c |-> [c EXCEPT !.pp = <<[w |-> w, a |-> a]>> \o Tail(@)], m |-> <<>>]
Fatal(c, l1, l2, text) == [c |-> [c EXCEPT !.nerr = -1], m |-> Msg(c, "fatal", l1, l2, text)]
(* -- linking compiled files into a program --                           *)
Objs(objs) == UNION {{<<i, j>> : j \in 1..Len(objs[i].preds)} : i \in 1..Len(objs)}
At(objs, x) == objs[x[1]].preds[x[2]]
(* a predicate is defined by one file, or by several that all declare it multifile, with the same properties *)
Clash(objs) == \E x, y \in Objs(objs) : x[1] < y[1] /\ At(objs, x).p = At(objs, y).p /\ ~At(objs, x).mf /\ ~At(objs, y).mf
Inconsistent(objs) ==
  {<<At(objs, y).file, At(objs, x).file, At(objs, x).p>> : <<x, y>> \in {z \in Objs(objs) \X Objs(objs) : LET a == At(objs, z[1])  b == At(objs, z[2]) IN
     z[1][1] < z[2][1] /\ a.p = b.p /\ <<a.dyn, a.pub \/ a.dyn, a.mf>> # <<b.dyn, b.pub \/ b.dyn, b.mf>>}}
Link(objs) ==
  (* each clause belongs to its own file; only the code of static predicates of one file is fixed *)
  LET Fixed(db) == [p \in DOMAIN db |-> [db[p] EXCEPT !.nat = ~db[p].dyn /\ ~db[p].mf]] IN
  Fixed(FoldLeft(LAMBDA db, d : IF Has(db, d.p) THEN [db EXCEPT ![d.p].cls = @ \o d.cls] ELSE Put(Install(db, d), d.p, [Install(db, d)[d.p] EXCEPT !.cls = d.cls]), <<>>,
           FoldLeft(LAMBDA l, o : l \o o.preds, <<>>, objs)))
(* the file that an include directive names *)
Resolve(files, cwd, stk, n) ==
  IF (cwd \o n) \in DOMAIN files THEN <<cwd \o n>>
  ELSE FoldLeft(LAMBDA a, x : IF a # <<>> THEN a ELSE IF (files[x.path].dir \o n) \in DOMAIN files THEN <<files[x.path].dir \o n>> ELSE <<>>, <<>>, stk)
Treat(c, it, l1, l2, files, cwd) ==
  CASE it.k = "if" -> IF Ignoring(c) THEN [c |-> [c EXCEPT !.pp = <<[w |-> "then", a |-> "all"]>> \o @], m |-> <<>>] ELSE PpIf(c, it, "if", c.pp, l1, l2)
    [] it.k = "elif" -> IF c.pp = <<>> \/ Head(c.pp).w # "then" THEN Fatal(c, l1, l2, "unexpected elif directive")
                        ELSE IF Head(c.pp).a # "ignore" THEN SetPp(c, "then", "all") ELSE PpIf(c, it, "elif", Tail(c.pp), l1, l2)
    [] it.k = "else" -> IF c.pp = <<>> \/ Head(c.pp).w # "then" THEN Fatal(c, l1, l2, "unexpected else directive")
                        ELSE SetPp(c, "else", IF Head(c.pp).a = "ignore" THEN "keep" ELSE IF Head(c.pp).a = "keep" THEN "ignore" ELSE "all")
    [] it.k = "endif" -> IF c.pp = <<>> THEN Fatal(c, l1, l2, "unexpected endif directive") ELSE [c |-> [c EXCEPT !.pp = Tail(@)], m |-> <<>>]
    [] Ignoring(c) -> [c |-> c, m |-> <<>>]
    [] it.k = "decl" ->
         LET fs == IF it.d = "dynamic" THEN <<"dyn", "pub">> ELSE IF it.d = "public" THEN <<"pub">> ELSE IF it.d = "multifile" THEN <<"mf">> ELSE <<"discontig">>
             d == FoldLeft(LAMBDA a, f : LET x == Declare(a.c, f, it.ps, l1, l2) IN [c |-> x.c, m |-> a.m \o x.m], [c |-> c, m |-> <<>>], fs)
         IN IF it.d \in {"dynamic", "multifile"} THEN [d EXCEPT !.c = Empties(@, it.ps, l1)] ELSE d
    [] it.k = "op" -> [c |-> [c EXCEPT !.ops = IF it.on THEN @ \cup {it.o} ELSE @ \ {it.o}, !.sys = Append(@, [g |-> <<IF it.on THEN "op" ELSE "noop", it.o>>, file |-> Head(c.stk).path, line |-> l1, ty |-> "system"])], m |-> <<>>]
    [] it.k = "sw" -> [c |-> [c EXCEPT !.sw = it.on, !.sys = Append(@, [g |-> <<IF it.on THEN "swon" ELSE "swoff">>, file |-> Head(c.stk).path, line |-> l1, ty |-> "system"])], m |-> <<>>]
    [] it.k = "init" -> [c |-> [c EXCEPT !.usr = Append(@, [g |-> it.g, file |-> Head(c.stk).path, line |-> l1, ty |-> "user"])], m |-> <<>>]
    [] it.k = "bad" -> [c |-> c, m |-> Msg(c, "warn", l1, l2, "invalid directive is ignored: " \o it.text)]
    [] it.k = "loaded" -> [c |-> c, m |-> Msg(c, "warn", l1, l2, "ensure_loaded directive not supported - directive ignored")]
    [] it.k = "badpi" -> Fatal(c, l1, l2, "directive argument is not a valid predicate indicator (" \o it.text \o ")")
    [] it.k = "redef" -> Fatal(c, l1, l2, it.text)
    [] it.k = "inc" -> LET r == Resolve(files, cwd, c.stk, it.f) IN
                       IF r = <<>> THEN Fatal(c, l1, l2, "cannot open file " \o it.f \o " - does not exist")
                       ELSE [c |-> [c EXCEPT !.stk = <<[path |-> r[1], i |-> 1, inc |-> 0]>> \o <<[@[1] EXCEPT !.inc = l1]>> \o Tail(@)], m |-> <<>>]
    [] it.k = "cl" -> Clause(c, it, l1, l2)
(* reading the next item of the source *)
Read(c, files, cwd, rules) ==
  IF c.raw # <<>> THEN LET x == Head(c.raw) IN Treat([c EXCEPT !.raw = Tail(@)], x.it, x.l1, x.l2, files, cwd)
  ELSE LET top == Head(c.stk)  its == files[top.path].items IN
  IF top.i > Len(its) THEN [c |-> [c EXCEPT !.stk = Tail(@)], m |-> <<>>]
  ELSE LET it == its[top.i]
           d == [c EXCEPT !.stk = <<[@[1] EXCEPT !.i = @ + 1]>> \o Tail(@)]
           rs == SelectSeq(c.tx, LAMBDA r : it.k = "cl" /\ rules[r].g = it.p)
       IN IF it.k = "syn" \/ (it.k = "cl" /\ it.op # "" /\ it.op \notin c.ops) THEN [c |-> [d EXCEPT !.nerr = @ + 1], m |-> Msg(d, "syn", it.l1, it.l1, "")]
          ELSE IF rs # <<>> THEN [c |-> [d EXCEPT !.raw = [i \in 1..Len(rules[Head(rs)].exp) |-> [it |-> rules[Head(rs)].exp[i], l1 |-> it.l1, l2 |-> it.l2]]], m |-> <<>>]
          ELSE Treat(d, it, it.l1, it.l2, files, cwd)
=============================================================================
