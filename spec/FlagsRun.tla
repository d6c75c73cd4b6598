------------------------------ MODULE FlagsRun ------------------------------
(* Decides recorded histories of flag settings, character conversions,      *)
(* reads, definitions, calls and queries about predicates against           *)
(* Flags.tla; reads are decided by SyntaxRun.tla under the flags that are   *)
(* set at that moment.                                                      *)
EXTENDS Flags, SyntaxRun
Empty == [c \in {} |-> 0]
FInit == \E t \in 1..Len(Hist) : s = [t |-> t, i |-> 1, ops |-> InitOps, fl |-> [dq |-> "codes", bq |-> "atom_no_escape"], cv |-> Ident, bad |-> "", want |-> <<>>, n |-> 0, open |-> 0, ph |-> "run",
                                        fv |-> InitFv, ro |-> Empty, cm |-> Empty, pr |-> Empty]
One == [s EXCEPT !.n = @ + 1]
Fv(n) == s.fv[Codes(n)]
On(n) == Fv(n) = A_("on")
QName == [x \in Quotes |-> CHOOSE y \in {"codes", "chars", "atom", "codes_no_escape", "chars_no_escape", "atom_no_escape"} : A_(y) = x]
(* the state after a change of flags or conversions *)
Sync(z) == [z EXCEPT !.fl = [dq |-> QName[z.fv[Codes("double_quotes")]], bq |-> QName[z.fv[Codes("back_quotes")]]],
                     !.cv = IF z.fv[Codes("char_conversion")] = A_("on") THEN z.cm ELSE Ident, !.n = @ + 1]
All == [n \in DOMAIN s.fv \cup DOMAIN s.ro |-> IF n \in DOMAIN s.fv THEN s.fv[n] ELSE s.ro[n]]
(* the possible results of set_prolog_flag/2 as <<result, values>> *)
SetOuts(fv, f, v) ==
  LET errs == SetErrs(f, v) IN
  IF errs # {} THEN {<<x, fv>> : x \in errs}
  ELSE IF f[2] = Codes("debug") /\ v = A_("on") THEN {<<FailR, fv>>, <<OK, [fv EXCEPT ![f[2]] = v]>>}
  ELSE {<<OK, [fv EXCEPT ![f[2]] = v]>>}
SetStep(e) ==
  LET out == {o \in SetOuts(s.fv, e.f, e.v) : o[1] = e.r} IN
  IF out = {} THEN Bad("set_prolog_flag/2: wrong result", {o[1] : o \in SetOuts(s.fv, e.f, e.v)})
  ELSE Sync([s EXCEPT !.fv = (CHOOSE o \in out : TRUE)[2]])
Dup(rows) == Len(rows) # Cardinality(ToSet(rows))
(* the first query reports every flag: the fixed ones get their value here *)
LearnStep(e) ==
  LET tab == ToSet(e.rows)
      names == {r[1] : r \in tab}
      ro == [n \in {r[1] : r \in {x \in tab : x[1] \in DOMAIN Ro}} |-> (CHOOSE r \in tab : r[1] = n)[2]]
  IN IF e.k # "sols" \/ Dup(e.rows) \/ names # DOMAIN Rw \cup DOMAIN Ro \/ Cardinality(tab) # Cardinality(names) THEN Bad("current_prolog_flag/2: wrong set of flags", [missing |-> (DOMAIN Rw \cup DOMAIN Ro) \ names, extra |-> names \ (DOMAIN Rw \cup DOMAIN Ro)])
     ELSE IF {r \in tab : r[1] \in DOMAIN Rw} # FlagRows(InitFv, <<"v", <<0>>>>, <<"v", <<1>>>>) THEN Bad("current_prolog_flag/2: wrong initial values", <<>>)
     ELSE IF \E n \in DOMAIN ro : ro[n][1] # Ro[n][2] /\ ro[n] # At(NIL) THEN Bad("current_prolog_flag/2: wrong type of value", {n \in DOMAIN ro : ro[n][1] # Ro[n][2]})
     ELSE IF \E x \in DOMAIN RoKnown : ro[Codes(x)] # RoKnown[x] THEN Bad("current_prolog_flag/2: wrong fixed value", {x \in DOMAIN RoKnown : ro[Codes(x)] # RoKnown[x]})
     ELSE [s EXCEPT !.ro = ro, !.n = @ + 1]
GetStep(e) ==
  LET errs == IF e.f[1] = "v" THEN {} ELSE FlagErrs(e.f)
      want == FlagRows(All, e.f, e.v)
  IN IF errs # {} THEN IF e.k = "err" /\ e.x \in errs THEN One ELSE Bad("current_prolog_flag/2: wrong error", errs)
     ELSE IF e.k = "sols" /\ ~Dup(e.rows) /\ ToSet(e.rows) = want THEN One
     ELSE Bad("current_prolog_flag/2: wrong answers", want)
(* enumerations whose caller changes the table after each answer: a row was *)
(* there at some time since the call, no key comes twice, and a row that is *)
(* there all the time comes.  one(state, op) gives the possible <<result,    *)
(* state>>; rows(state) the rows                                            *)
ScanAll(e, st0, rows(_), one(_, _)) ==
  FoldLeft(LAMBDA acc, x :
      IF acc.bad # "" THEN acc
      ELSE IF x.k = "op" THEN
        LET o == {y \in one(acc.st, x) : y[1] = x.r} IN
        IF o = {} THEN [acc EXCEPT !.bad = "wrong result of a call within an enumeration"]
        ELSE LET n == (CHOOSE y \in o : TRUE)[2] IN [acc EXCEPT !.st = n, !.some = @ \cup rows(n), !.keep = @ \cap rows(n)]
      ELSE IF x.row \notin acc.some THEN [acc EXCEPT !.bad = "an answer that does not hold", !.want = x.row]
      ELSE IF x.row[1] \in acc.seen THEN [acc EXCEPT !.bad = "an answer that comes twice", !.want = x.row]
      ELSE [acc EXCEPT !.seen = @ \cup {x.row[1]}],
    [bad |-> "", st |-> st0, some |-> rows(st0), keep |-> rows(st0), seen |-> {}, want |-> <<>>], e.items)
Missing(acc) == {r \in acc.keep : r[1] \notin acc.seen}
ScanStep2(e) ==
  LET acc == ScanAll(e, s.fv, LAMBDA fv : FlagRows([n \in DOMAIN All |-> IF n \in DOMAIN fv THEN fv[n] ELSE All[n]], e.f, e.v), LAMBDA fv, x : SetOuts(fv, x.f, x.v)) IN
  IF acc.bad # "" THEN Bad("current_prolog_flag/2: " \o acc.bad, acc.want)
  ELSE IF Missing(acc) # {} THEN Bad("current_prolog_flag/2: missing answers", Missing(acc))
  ELSE Sync([s EXCEPT !.fv = acc.st])

ConvOuts(cm, a, b) == LET errs == ConvErrs(a, b) IN IF errs # {} THEN {<<x, cm>> : x \in errs} ELSE {<<OK, Convert(cm, a[2][1], b[2][1])>>}
ConvStep(e) ==
  LET out == {o \in ConvOuts(s.cm, e.a, e.b) : o[1] = e.r} IN
  IF out = {} THEN Bad("char_conversion/2: wrong result", {o[1] : o \in ConvOuts(s.cm, e.a, e.b)})
  ELSE Sync([s EXCEPT !.cm = (CHOOSE o \in out : TRUE)[2]])
ConvqStep(e) ==
  LET errs == ConvqErrs(e.a, e.b) IN
  IF errs # {} THEN IF e.k = "err" /\ e.x \in errs THEN One ELSE Bad("current_char_conversion/2: wrong error", errs)
  ELSE IF e.k = "sols" /\ ~Dup(e.rows) /\ ToSet(e.rows) = ConvRows(s.cm, e.a, e.b) THEN One
  ELSE Bad("current_char_conversion/2: wrong answers", ConvRows(s.cm, e.a, e.b))
CscanStep(e) ==
  LET acc == ScanAll(e, s.cm, LAMBDA cm : ConvRows(cm, e.a, e.b), LAMBDA cm, x : ConvOuts(cm, x.a, x.b)) IN
  IF acc.bad # "" THEN Bad("current_char_conversion/2: " \o acc.bad, acc.want)
  ELSE IF Missing(acc) # {} THEN Bad("current_char_conversion/2: missing answers", Missing(acc))
  ELSE Sync([s EXCEPT !.cm = acc.st])

(* a read under the flag syntax_error: a read that would raise a syntax     *)
(* error warns and fails, or fails silently                                 *)
SynE == [k |-> "err", v |-> Err1("syntax_error", <<At(<<>>)>>)]
Deny == [k |-> "x", v |-> <<>>]
Under(r, w) ==
  LET f == Fv("syntax_error") IN
  IF f = A_("error") THEN IF w = 0 THEN r ELSE Deny
  ELSE IF r.k = "fail" THEN IF w = (IF f = A_("warning") THEN 1 ELSE 0) THEN SynE ELSE Deny
  ELSE IF ErrOk(r) \/ w # 0 THEN Deny ELSE r
ReadStep(e) == LET ev == [e EXCEPT !.res = [i \in 1..Len(e.res) |-> Under(e.res[i], e.warn[i])]] IN Step(ev)
(* one term of a text: its lexical or grammatical correctness does not      *)
(* depend on anything but strict_iso                                        *)
IsoStep(e) ==
  LET on == On("strict_iso")
      want == IF on THEN e.on ELSE e.off
      ok == IF SynErr(want) THEN e.k = "read" /\ ErrOk(Under(e.res, e.warn)) ELSE e.k = "read" /\ e.warn = 0 /\ ((want[1] = "s" /\ want[2] = Codes("type_error") /\ e.res.k = "err" /\ e.res.v = want)
                  \/ (want = FailR /\ e.res.k = "fail") \/ (e.res.k = "got" /\ e.res.t = want))
  IN IF ok THEN One ELSE Bad("strict_iso: wrong result", want)
(* conversion of a text to a number: [ok: its value, or a syntax error] *)
NumStep(e) ==
  LET r == Under(e.res, e.warn) IN
  IF e.how = "name" THEN IF e.res.k = "got" /\ e.res.t = e.val /\ e.warn = 0 THEN One ELSE Bad("name/2: wrong result", e.val)
  ELSE IF e.good THEN IF e.res.k = "got" /\ e.res.t = e.val /\ e.warn = 0 THEN One ELSE Bad("number conversion: wrong result", e.val)
  ELSE IF ErrOk(r) THEN One ELSE Bad("number conversion: wrong treatment of a syntax error", Fv("syntax_error"))
OsStep(e) ==
  LET f == Fv("os_error") IN
  IF f = A_("error") THEN IF e.res.k = "err" /\ e.res.v[1] = "s" /\ e.res.v[2] = Codes("system_error") /\ e.warn = 0 THEN One ELSE Bad("os_error: error expected", <<>>)
  ELSE IF e.res.k = "fail" /\ e.warn = (IF f = A_("warning") THEN 1 ELSE 0) THEN One ELSE Bad("os_error: failure expected", f)

DbStep(e) ==
  LET out == {o \in Db(s.pr, e.op, e.p, e.v) : o[1] = e.r} IN
  IF out = {} THEN Bad(e.op \o ": wrong result", {o[1] : o \in Db(s.pr, e.op, e.p, e.v)})
  ELSE [s EXCEPT !.pr = (CHOOSE o \in out : TRUE)[2], !.n = @ + 1]
(* the names in a file are converted when it is read *)
CvName(p) == <<[i \in 1..Len(p[1]) |-> IF p[1][i] \in DOMAIN s.cv THEN s.cv[p[1][i]] ELSE p[1][i]], p[2]>>
PlainNm(n) == n[1] \in 97..122 /\ \A i \in 2..Len(n) : n[i] \in 97..122 \cup 65..90 \cup 48..57 \cup {95}
LoadStep(e) ==
  LET ds == [i \in 1..Len(e.preds) |-> [e.preds[i] EXCEPT !.p = CvName(@)]] IN
  IF \E i \in 1..Len(ds) : ~PlainNm(ds[i].p[1]) THEN [s EXCEPT !.open = @ + 1, !.ph = "done"]
  ELSE IF e.r = OK THEN [s EXCEPT !.pr = Load(@, ds), !.n = @ + 1] ELSE Bad("consult: failed", e.r)
(* a call of p with unbound arguments, all answers collected *)
CallStep(e) ==
  IF e.p \in DOMAIN s.pr THEN IF e.k = "sols" /\ e.sols = (IF e.p[2] = 0 THEN [i \in 1..Len(s.pr[e.p].cls) |-> -1] ELSE s.pr[e.p].cls) /\ e.warn = 0 THEN One ELSE Bad("call: wrong answers", s.pr[e.p].cls)
  ELSE LET f == Fv("unknown") IN
       IF f = A_("error") THEN IF e.k = "err" /\ e.x = ExE("procedure", PI(e.p)) /\ e.warn = 0 THEN One ELSE Bad("call: existence error expected", PI(e.p))
       ELSE IF e.k = "sols" /\ e.sols = <<>> /\ e.warn = (IF f = A_("warning") THEN 1 ELSE 0) THEN One ELSE Bad("call: failure expected", f)
CpRows(pr, iso, pi) ==
  {<<p, p>> : p \in {p \in DOMAIN pr \cup (IF iso THEN {} ELSE Bips) : pi[1] = "v" \/ ((pi[3][1][1] = "v" \/ pi[3][1][2] = p[1]) /\ (pi[3][2][1] = "v" \/ Num(pi[3][2]) = p[2]))}}
CpStep(e) ==
  LET errs == CurPredErrs(e.pi)
      want == CpRows(s.pr, On("strict_iso"), e.pi)
  IN IF errs # {} THEN IF e.k = "err" /\ e.x \in errs THEN One ELSE Bad("current_predicate/1: wrong error", errs)
     ELSE IF e.k = "sols" /\ ~Dup(e.rows) /\ {<<r, r>> : r \in ToSet(e.rows)} = want THEN One
     ELSE Bad("current_predicate/1: wrong answers", want)
CpScanStep(e) ==
  LET acc == ScanAll(e, s.pr, LAMBDA pr : CpRows(pr, On("strict_iso"), e.pi), LAMBDA pr, x : Db(pr, x.op, x.p, x.v)) IN
  IF acc.bad # "" THEN Bad("current_predicate/1: " \o acc.bad, acc.want)
  ELSE IF Missing(acc) # {} THEN Bad("current_predicate/1: missing answers", Missing(acc))
  ELSE [s EXCEPT !.pr = acc.st, !.n = @ + 1]
(* rows of predicate_property/2: <<predicate, property>>.  The places of    *)
(* predicates that were not loaded from one file are left open              *)
PlaceOpen(p) == p \notin DOMAIN s.pr \/ s.pr[p].file = <<>> \/ s.pr[p].mf
Pos(q) == q[1] = "s" /\ q[2] \in {Codes("prolog_file"), Codes("prolog_line")}
PpStep(e) ==
  LET errs == PropErrs(e.h, e.q)
      all(p) == IF p \in DOMAIN s.pr THEN Props(s.pr[p]) ELSE BipProps(p)
      ps == {p \in DOMAIN s.pr \cup Bips : e.h[1] = "v" \/ (p[1] = e.h[2] /\ p[2] = (IF e.h[1] = "a" THEN 0 ELSE Len(e.h[3])))}
      fit(q) == e.q[1] = "v" \/ q = e.q \/ (e.q[1] = "s" /\ q[1] = "s" /\ q[2] = e.q[2] /\ (e.q[3][1][1] = "v" \/ e.q[3] = q[3]))
      want == UNION {{<<p, q>> : q \in {q \in all(p) : fit(q)}} : p \in ps}
      got == {r \in ToSet(e.rows) : ~(Pos(r[2]) /\ PlaceOpen(r[1])) /\ ~(r[2][1] = "s" /\ r[2][2] = Codes("meta_predicate") /\ r[1] \in Bips)}
  IN IF errs # {} THEN IF e.k = "err" /\ e.x \in errs THEN One ELSE Bad("predicate_property/2: wrong error", errs)
     ELSE IF e.k = "sols" /\ ~Dup(e.rows) /\ got = want THEN One
     ELSE Bad("predicate_property/2: wrong answers", [missing |-> want \ got, extra |-> got \ want])
(* clause/2 on a head with unbound arguments *)
ClauseStep(e) ==
  IF e.p \notin DOMAIN s.pr THEN IF e.k = "sols" /\ e.sols = <<>> THEN One ELSE Bad("clause/2: no answer expected", <<>>)
  ELSE IF s.pr[e.p].pub THEN IF e.k = "sols" /\ e.sols = (IF e.p[2] = 0 THEN [i \in 1..Len(s.pr[e.p].cls) |-> -1] ELSE s.pr[e.p].cls) THEN One ELSE Bad("clause/2: wrong answers", s.pr[e.p].cls)
  ELSE IF e.k = "err" /\ e.x = PermM("access", "private_procedure", e.p) THEN One ELSE Bad("clause/2: error expected", PI(e.p))

FStep(e) ==
  CASE e.c = "learn" -> LearnStep(e)
    [] e.c = "set" -> SetStep(e)
    [] e.c = "get" -> GetStep(e)
    [] e.c = "fscan" -> ScanStep2(e)
    [] e.c = "conv" -> ConvStep(e)
    [] e.c = "convq" -> ConvqStep(e)
    [] e.c = "cscan" -> CscanStep(e)
    [] e.c \in {"read", "tok"} -> ReadStep(e)
    [] e.c = "iso" -> IsoStep(e)
    [] e.c = "num" -> NumStep(e)
    [] e.c = "os" -> OsStep(e)
    [] e.c = "db" -> DbStep(e)
    [] e.c = "load" -> LoadStep(e)
    [] e.c = "call" -> CallStep(e)
    [] e.c = "cp" -> CpStep(e)
    [] e.c = "cpscan" -> CpScanStep(e)
    [] e.c = "pp" -> PpStep(e)
    [] e.c = "clause" -> ClauseStep(e)
    [] OTHER -> Bad(e.c, <<>>)
FNext == /\ s.ph = "run"
         /\ s' = IF s.i > Len(Evs) THEN [s EXCEPT !.ph = "done"]
                 ELSE LET n == FStep(Evs[s.i]) IN IF n.ph = "run" THEN [n EXCEPT !.i = @ + 1] ELSE n
         /\ s'.ph # "run" => PrintT(<<"OUT", s.t, ToJson([bad |-> s'.bad, want |-> ToString(s'.want), i |-> s.i, n |-> s'.n, open |-> s'.open])>>)
FSpec == FInit /\ [][FNext]_s
=============================================================================
