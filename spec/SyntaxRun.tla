------------------------------ MODULE SyntaxRun ------------------------------
(* Decides recorded histories of operator definitions, reads and writes     *)
(* against Syntax.tla.  The state is the operator table and the flags that  *)
(* decide how quoted text is read.                                          *)
EXTENDS Syntax, Json, IOUtils
VARIABLE s
Hist == JsonDeserialize(IOEnv.TESTS)
Ident == [c \in {} |-> 0]
Init == \E t \in 1..Len(Hist) : s = [t |-> t, i |-> 1, ops |-> InitOps, fl |-> [dq |-> "codes", bq |-> "atom_no_escape"], cv |-> Ident, bad |-> "", want |-> <<>>, n |-> 0, open |-> 0, ph |-> "run"]
Bad(why, w) == [s EXCEPT !.bad = why, !.want = w, !.ph = "done"]

Tx(codes) == [r |-> codes, s |-> IF DOMAIN s.cv = {} THEN codes ELSE [i \in 1..Len(codes) |-> IF codes[i] \in DOMAIN s.cv THEN s.cv[codes[i]] ELSE codes[i]]]
Ft(e) == [k \in {e.fl[i][1] : i \in 1..Len(e.fl)} |-> e.fl[CHOOSE i \in 1..Len(e.fl) : e.fl[i][1] = k][2]]
SynErr(x) == x[1] = "s" /\ x[2] = Codes("syntax_error")
ErrOk(r) == r.k = "err" /\ SynErr(r.v)
EOFT == At(Codes("end_of_file"))

Row(r) == <<r[1], r[2], r[3]>>
TableOk(tab, ops) == Cardinality(ToSet(tab)) = Len(tab) /\ {<<x[1], SpecOf[x[2]], x[3]>> : x \in ToSet(tab)} = RowsOf(ops)
OpStep(e) ==
  LET out == {o \in OpCall(s.ops, e.p, e.ty, e.o) : o[1] = e.r}
      fit == {o \in out : TableOk(e.tab, o[2])}
  IN IF out = {} THEN Bad("op/3: wrong result", {o[1] : o \in OpCall(s.ops, e.p, e.ty, e.o)})
     ELSE IF fit = {} THEN Bad("op/3: wrong operator table", [missing |-> {r \in RowsOf((CHOOSE o \in out : TRUE)[2]) : r \notin {<<x[1], SpecOf[x[2]], x[3]>> : x \in ToSet(e.tab)}},
                                                               extra |-> {<<x[1], SpecOf[x[2]], x[3]>> : x \in ToSet(e.tab)} \ RowsOf((CHOOSE o \in out : TRUE)[2])])
     ELSE [s EXCEPT !.ops = (CHOOSE o \in fit : TRUE)[2]]
(* an enumeration by current_op/3 whose caller changes the table after each *)
(* answer: an answer is in the table, none comes twice, and an operator     *)
(* that stays as it is comes.  tabs: the possible tables so far             *)
ScanStep(e) ==
  LET rows(o) == CurRows(o, e.p, e.ty, e.o)
      one(acc, x) ==
        IF acc.bad # "" THEN acc
        ELSE IF x.k = "op" THEN
          LET n == {t[2] : t \in {u \in UNION {OpCall(o, x.p, x.ty, x.o) : o \in acc.tabs} : u[1] = x.r}} IN
          IF n = {} THEN [acc EXCEPT !.bad = "op/3: wrong result"]
          ELSE [acc EXCEPT !.tabs = n, !.keep = {r \in @ : \A o \in n : r \in rows(o)}]
        ELSE LET r == <<x.row[1], SpecOf[x.row[2]], x.row[3]>> IN
          IF ~\E o \in acc.tabs : r \in rows(o) THEN [acc EXCEPT !.bad = "current_op/3: an answer that is not in the table"]
          ELSE IF r \in acc.seen THEN [acc EXCEPT !.bad = "current_op/3: an answer that comes twice"]
          ELSE [acc EXCEPT !.seen = @ \cup {r}]
      end == FoldLeft(one, [bad |-> "", tabs |-> {s.ops}, keep |-> rows(s.ops), seen |-> {}], e.items)
      fit == {o \in end.tabs : TableOk(e.tab, o)}
  IN IF end.bad # "" THEN Bad(end.bad, end.seen)
     ELSE IF ~(end.keep \subseteq end.seen) THEN Bad("current_op/3: missing answers", end.keep \ end.seen)
     ELSE IF fit = {} THEN Bad("op/3: wrong operator table", <<>>)
     ELSE [s EXCEPT !.ops = CHOOSE o \in fit : TRUE, !.n = @ + 1]
CurStep(e) ==
  LET errs == CurErrs(e.p, e.ty, e.o) IN
  IF errs # {} THEN IF e.k = "err" /\ e.v \in errs THEN s ELSE Bad("current_op/3: wrong error", errs)
  ELSE IF e.k = "sols" /\ TableOk(e.rows, TableOf(CurRows(s.ops, e.p, e.ty, e.o))) THEN s
  ELSE Bad("current_op/3: wrong answers", CurRows(s.ops, e.p, e.ty, e.o))

(* Does the result r of a read fit the term x of the text?                  *)
Names(vs) == SelectSeq(vs, LAMBDA v : Len(v) < 2 \/ v[2] # 0)
Idx(vs, v) == CHOOSE i \in 1..Len(vs) : vs[i] = v
Fits(x, r) ==
  LET vs == VarSeq(x, <<>>)
      named == Names(vs)
      pair(v) == <<v, Idx(vs, v)>>
  IN /\ Repl(x, vs) = r.t
     /\ r.vs = [i \in 1..Len(vs) |-> i]
     /\ r.vn = [i \in 1..Len(named) |-> pair(named[i])]
     /\ LET one == SelectSeq(named, LAMBDA v : Occ(x, v) = 1) IN r.sn = [i \in 1..Len(one) |-> pair(one[i])]
(* After a syntax error reading goes on after the end of the clause; where  *)
(* that is depends on the place of the error when quotes or comments follow *)
Plain(tx, b, e) == /\ \A p \in b..e : tx.s[p] \notin {39, 34, 96, 37}
                   /\ \A p \in b..e - 1 : ~(tx.s[p] = 47 /\ tx.s[p + 1] = 42)
                   /\ \A p \in b..e - 1 : ~(tx.s[p] = 46 /\ Layout(tx.s[p + 1]))
RECURSIVE Reads(_, _, _, _, _)
Reads(tx, p, rs, ft, n) ==       \* n: clauses decided so far
  IF rs = <<>> THEN [s EXCEPT !.n = @ + n]
  ELSE
  LET r == rs[1]
      c == Clause(tx, p, s.fl, <<>>)
      more(k) == Reads(tx, c.last.e, Tail(rs), ft, n + k)
      fin(k) == [s EXCEPT !.n = @ + n + k]
  IN
  IF c.last.k = "skip" THEN fin(0)
  ELSE IF r.k \notin {"got", "err"} THEN Bad("read: no result", r.k)
  ELSE IF c.last.k = "eof" /\ c.ts = <<>> THEN IF r.k = "got" /\ r.t = EOFT THEN fin(1) ELSE Bad("read: end of file expected", <<>>)
  ELSE IF c.last.k \in {"err", "eof"} THEN IF ErrOk(r) THEN fin(1) ELSE Bad("read: syntax error expected", c.last)
  ELSE
  LET st == Grammar(c.ts, s.ops, s.fl, ft, TRUE)
      one == Cardinality(st.terms) = 1
      x == CHOOSE y \in st.terms : TRUE
  IN IF r.k = "err" THEN
       IF ~SynErr(r.v) THEN Bad("read: wrong error", <<>>)
       ELSE IF one /\ ~st.big THEN Bad("read: refused a text with a term", Canon(x))
       ELSE IF Plain(tx, p, c.last.e - 1) THEN more(1) ELSE fin(1)
     ELSE IF one /\ ~st.big THEN IF Fits(x, r) THEN more(1) ELSE Bad("read: wrong term", <<Canon(x), VarSeq(x, <<>>)>>)
     ELSE IF \E y \in st.terms : Fits(y, r) THEN more(1)
     ELSE LET le == Grammar(c.ts, s.ops, s.fl, ft, FALSE) IN
          IF le.big \/ st.big THEN [more(0) EXCEPT !.open = @ + 1]
          ELSE IF \E y \in le.terms : Fits(y, r) THEN more(1)
          ELSE Bad("read: a term that the text does not denote", {Canon(y) : y \in le.terms})

TokTerm(t) ==
  CASE t.k = "name" -> At(t.v)
    [] t.k = "var" -> St(Codes("var"), <<At(t.v)>>)
    [] t.k = "int" -> <<"n", 0, t.v>>
    [] t.k = "str" -> St(Codes("string"), <<At(t.v)>>)
    [] t.k = "bq" -> St(Codes("back_quotes"), <<At(t.v)>>)
    [] t.k \in {"punct", "open_ct"} -> IF t.v = COMMA THEN At(COMMA) ELSE St(Codes("punct"), <<At(t.v)>>)
    [] t.k = "end" -> St(Codes("punct"), <<At(Codes("full_stop"))>>)
    [] t.k = "eof" -> St(Codes("punct"), <<EOFT>>)
    [] OTHER -> At(<<>>)
RECURSIVE Toks(_, _, _, _, _)
Toks(tx, p, rs, ft, n) ==
  IF rs = <<>> THEN [s EXCEPT !.n = @ + n]
  ELSE
  LET r == rs[1]
      t == Token(tx, p, s.fl)
      fin(k) == [s EXCEPT !.n = @ + n + k]
  IN
  IF t.k = "skip" THEN fin(0)
  ELSE IF t.k = "err" \/ (t.k = "int" /\ ~DigLeq(t.v, MaxDig)) THEN IF ErrOk(r) THEN fin(1) ELSE Bad("read_token: syntax error expected", t)
  ELSE IF r.k # "got" \/ r.t # (IF t.k = "flo" THEN <<"f", 0, ft[t.v]>> ELSE TokTerm(t)) THEN Bad("read_token: wrong token", t)
  ELSE IF t.k = "eof" THEN fin(1) ELSE Toks(tx, t.e, Tail(rs), ft, n + 1)

(* portray_clause writes a clause with the body laid out: a conjunction is  *)
(* written flat (conjunction is associative) and a body true left away.     *)
IsS(x, f, n) == x[1] = "s" /\ x[2] = Codes(f) /\ Len(x[3]) = n
RECURSIVE Conj(_)
Conj(x) == IF IsS(x, ",", 2) THEN Conj(x[3][1]) \o Conj(x[3][2])
           ELSE IF \E f \in {";", "->", "*->"} : IsS(x, f, 2)
                THEN <<<<"s", x[2], <<<<"b", Conj(x[3][1])>>, <<"b", Conj(x[3][2])>>>>>>>>
           ELSE <<x>>
PcNorm(x) == IF IsS(x, ":-", 2) THEN IF x[3][2] = At(Codes("true")) THEN x[3][1] ELSE St(x[2], <<x[3][1], <<"b", Conj(x[3][2])>>>>)
             ELSE IF IsS(x, "-->", 2) THEN St(x[2], <<x[3][1], <<"b", Conj(x[3][2])>>>>)
             ELSE IF IsS(x, ":-", 1) THEN St(x[2], <<<<"b", Conj(x[3][1])>>>>)
             ELSE x
Control == {<<"in", Codes(f)>> : f \in {":-", "-->", ",", ";", "->", "*->"}} \cup {<<"pre", Codes(":-")>>}
Same(e, x, y) == IF e.end = "end" THEN y = x \/ PcNorm(y) = PcNorm(x) \/ y = PcNorm(x) ELSE y = x

(* A text written for the term e.t has to denote it, and is read back as it *)
WrStep(e) ==
  IF e.r # "ok" THEN Bad("write: no text", e.r)
  ELSE IF e.end = "end" /\ \E k \in Control : k \notin DOMAIN s.ops \/ s.ops[k] # InitOps[k] THEN [s EXCEPT !.open = @ + 1]
  ELSE
  LET x == Canon(IF e.nv THEN NumVars(e.t) ELSE e.t)
      tx == Tx(e.codes)
      ft == Ft(e)
      c == Clause(tx, 1, s.fl, <<>>)
      rest == Clause(tx, c.last.e, s.fl, <<>>)
      st == Grammar(c.ts, s.ops, s.fl, ft, TRUE)
      one == Cardinality(st.terms) = 1
      canon == Grammar(c.ts, NoOps, s.fl, ft, TRUE)
  IN IF c.last.k = "skip" THEN s
     ELSE IF c.last.k # e.end \/ (e.end = "end" /\ (rest.last.k # "eof" \/ rest.ts # <<>>)) THEN Bad("write: not the text of one term", c.last)
     ELSE IF e.ign /\ {Canon(y) : y \in canon.terms} # {x} THEN Bad("write: canonical text does not denote the term", {Canon(y) : y \in canon.terms})
     ELSE IF e.back.k # "got" \/ ~Same(e, x, e.back.t) THEN Bad("write: read back as something else", e.back)
     ELSE IF one /\ ~st.big THEN IF Same(e, x, Canon(CHOOSE y \in st.terms : TRUE)) THEN [s EXCEPT !.n = @ + 1] ELSE Bad("write: the text denotes another term", Canon(CHOOSE y \in st.terms : TRUE))
     ELSE IF \E y \in st.terms : Same(e, x, Canon(y)) THEN [s EXCEPT !.n = @ + 1]
     ELSE LET le == Grammar(c.ts, s.ops, s.fl, ft, FALSE) IN
          IF le.big \/ st.big THEN [s EXCEPT !.open = @ + 1]
          ELSE IF \E y \in le.terms : Same(e, x, Canon(y)) THEN [s EXCEPT !.n = @ + 1]
          ELSE Bad("write: the text does not denote the term", {Canon(y) : y \in le.terms})

Step(e) ==
  CASE e.c = "op" -> OpStep(e)
    [] e.c = "cop" -> CurStep(e)
    [] e.c = "scan" -> ScanStep(e)
    [] e.c = "flag" -> IF e.f = "dq" THEN [s EXCEPT !.fl.dq = e.v] ELSE [s EXCEPT !.fl.bq = e.v]
    [] e.c = "read" -> Reads(Tx(e.codes), 1, e.res, Ft(e), 0)
    [] e.c = "tok" -> Toks(Tx(e.codes), 1, e.res, Ft(e), 0)
    [] e.c = "wr" -> WrStep(e)
    [] OTHER -> Bad(e.c, <<>>)
Evs == Hist[s.t].events
Next == /\ s.ph = "run"
        /\ s' = IF s.i > Len(Evs) THEN [s EXCEPT !.ph = "done"]
                ELSE LET n == Step(Evs[s.i]) IN IF n.ph = "run" THEN [n EXCEPT !.i = @ + 1] ELSE n
        /\ s'.ph # "run" => PrintT(<<"OUT", s.t, ToJson([bad |-> s'.bad, want |-> ToString(s'.want), i |-> s.i, n |-> s'.n, open |-> s'.open])>>)
Spec == Init /\ [][Next]_s
=============================================================================
