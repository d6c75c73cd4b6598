--------------------------- MODULE LoadRun ---------------------------
(* A history of loads and database changes as a state machine over the   *)
(* database, the operators and flags of the session, the files and the   *)
(* agenda of the load under way; the messages and marks it writes are    *)
(* compared with those recorded when it ends.                            *)
EXTENDS Load, IOUtils, Json
VARIABLE s
Hist == JsonDeserialize(IOEnv.TESTS)
H == Hist[s.t]
Evs == H.events
LInit == \E t \in 1..Len(Hist) : s = [t |-> t, i |-> 1, db |-> <<>>, ops |-> {}, sw |-> TRUE, files |-> <<>>, ag |-> <<>>, out |-> <<>>, ret |-> "", inc |-> {}, on |-> FALSE,
                                      bad |-> "", want |-> <<>>, n |-> 0, open |-> 0, ph |-> "run"]
Bad(m, w) == [s EXCEPT !.bad = m, !.want = w, !.ph = "bad"]
Ok(z) == [z EXCEPT !.n = @ + 1, !.i = @ + 1, !.on = FALSE]
Env == [ops |-> s.ops, sw |-> s.sw, tx |-> IF Has(s.db, Tx) THEN Ids(s.db[Tx].cls) ELSE <<>>]
Push(f) == [s EXCEPT !.ag = <<f>> \o Tail(@)]
Top == Head(s.ag)
Files(fs) == [k |-> "files", fs |-> fs, wait |-> FALSE]
(* -- the agenda -- *)
FilesStep ==
  IF Top.wait /\ s.ret = "fail" THEN [s EXCEPT !.ag = Tail(@)]
  ELSE IF Top.fs = <<>> THEN [s EXCEPT !.ag = Tail(@), !.ret = "ok"]
  ELSE LET f == Head(Top.fs) IN
       IF f \notin DOMAIN s.files THEN [s EXCEPT !.ag = Tail(@), !.ret = "error(existence_error(source_sink," \o "'" \o f \o "'),consult/1)"]
       ELSE [s EXCEPT !.ag = <<Comp(f, Env, FALSE, H.cwd), [Top EXCEPT !.fs = Tail(@), !.wait = TRUE]>> \o Tail(@)]
Failed(m) == [s EXCEPT !.ag = Tail(@), !.out = @ \o m \o <<<<"cfail", "", "", "", "">>>>, !.ret = "fail"]
CompStep ==
  LET c == Top IN
  IF c.stk = <<>>
  THEN IF c.pp # <<>> THEN Failed(<<<<"fatal", c.main, "", "", "endif directive expected">>>>)
       ELSE IF c.nerr > 0 THEN Failed(<<<<"nerr", Str(c.nerr), "", "", "">>>>)
       ELSE LET r == Finish(c) IN
            IF c.nat THEN [s EXCEPT !.ag = <<[@[2] EXCEPT !.objs = Append(@, r)]>> \o SubSeq(@, 3, Len(@)), !.ret = "ok"]
            ELSE [s EXCEPT !.ag = <<[k |-> "load", preds |-> r.preds, dirs |-> r.sys \o r.usr]>> \o Tail(@)]
  ELSE LET x == Read(c, s.files, c.cwd, H.rules) IN
       IF x.c.nerr < 0 THEN Failed(x.m)
       ELSE [s EXCEPT !.ag = <<x.c>> \o Tail(@), !.out = @ \o x.m]
LoadStep ==
  IF Top.preds = <<>> THEN Push([k |-> "dirs", dirs |-> Top.dirs, wait |-> FALSE, nat |-> FALSE])
  ELSE LET d == Head(Top.preds) IN
       [s EXCEPT !.ag = <<[Top EXCEPT !.preds = Tail(@)]>> \o Tail(@), !.db = Install(@, d), !.out = @ \o Redef(s.db, d)]
Dfail(d) == <<<<"dfail", d.file, Str(d.line), d.ty, "">>>>
Dexc(d, b) == IF Top.nat THEN <<<<"uncaught", "", "", "", b>>>> \o Dfail(d) ELSE <<<<"dexc", d.file, Str(d.line), d.ty, b>>>>
IdText(cls) == FoldLeft(LAMBDA a, c : a \o " " \o Str(c.id), "", cls)
(* assertz of a fact: [ok, database] or the error *)
AssertFact(db, p, id) ==
  IF ~Has(db, p) THEN [r |-> "ok", db |-> Put(db, p, [dyn |-> TRUE, pub |-> TRUE, mf |-> FALSE, nat |-> FALSE, file |-> "", line |-> 0, cls |-> <<[id |-> id, file |-> ""]>>])]
  ELSE IF ~db[p].dyn THEN [r |-> "error(permission_error(modify,static_procedure," \o p \o "),assertz/1)", db |-> db]
  ELSE [r |-> "ok", db |-> [db EXCEPT ![p].cls = Append(@, [id |-> id, file |-> ""])]]
DirsStep ==
  IF Top.wait
  THEN LET d == Head(Top.dirs)  z == [s EXCEPT !.ag = <<[Top EXCEPT !.wait = FALSE, !.dirs = Tail(@)]>> \o Tail(@)] IN
       IF s.ret = "ok" THEN z ELSE IF s.ret = "fail" THEN [z EXCEPT !.out = @ \o Dfail(d)] ELSE [z EXCEPT !.out = @ \o Dexc(d, s.ret)]
  ELSE IF Top.dirs = <<>> THEN [s EXCEPT !.ag = Tail(@), !.ret = "ok"]
  ELSE LET d == Head(Top.dirs)  g == d.g
           z == [s EXCEPT !.ag = <<[Top EXCEPT !.dirs = Tail(@)]>> \o Tail(@)]
       IN CASE g[1] = "op" -> [z EXCEPT !.ops = @ \cup {g[2]}]
            [] g[1] = "noop" -> [z EXCEPT !.ops = @ \ {g[2]}]
            [] g[1] = "swon" -> [z EXCEPT !.sw = TRUE]
            [] g[1] = "swoff" -> [z EXCEPT !.sw = FALSE]
            [] g[1] = "mk" -> [z EXCEPT !.out = Append(@, <<"mk", g[2], "", "", "">>)]
            [] g[1] = "mkt" -> [z EXCEPT !.out = Append(@, <<"mk", g[2], "", "", "">>) \o Dexc(d, "oops")]
            [] g[1] = "mkf" -> [z EXCEPT !.out = @ \o <<<<"mk", g[2], "", "", "">>, <<"mk", g[3], "", "", "">>>> \o Dfail(d)]
            [] g[1] = "mkc" -> [z EXCEPT !.out = Append(@, <<"mk", g[2], "", "", "">>)]
            [] g[1] = "sn" -> [z EXCEPT !.out = Append(@, <<"sn", g[2], "", "", IF Has(s.db, g[2]) THEN IdText(s.db[g[2]].cls) ELSE " none">>)]
            [] g[1] = "fail" -> [z EXCEPT !.out = @ \o Dfail(d)]
            [] g[1] = "throw" -> [z EXCEPT !.out = @ \o Dexc(d, "oops")]
            [] g[1] = "assert" -> LET a == AssertFact(s.db, g[2], g[3]) IN IF a.r = "ok" THEN [z EXCEPT !.db = a.db] ELSE [z EXCEPT !.out = @ \o Dexc(d, a.r)]
            [] g[1] = "consult" -> [s EXCEPT !.ag = <<Files(g[2]), [Top EXCEPT !.wait = TRUE]>> \o Tail(@)]
(* a program made of natively compiled files: compiled one by one, linked, started.  Predicates are registered first, *)
(* then the system directives run (files in link order), then the user directives (files in reverse order)             *)
Fresh == [ops |-> {}, sw |-> TRUE, tx |-> <<>>]
NatStep ==
  IF s.ret = "fail" THEN [s EXCEPT !.ag = <<>>]
  ELSE IF Top.fs # <<>> THEN [s EXCEPT !.ag = <<Comp(Head(Top.fs), Fresh, TRUE, ""), [Top EXCEPT !.fs = Tail(@)]>>]
  ELSE IF Clash(Top.objs) THEN [s EXCEPT !.ag = <<>>, !.ret = "clash"]
  ELSE IF Inconsistent(Top.objs) # {} THEN [s EXCEPT !.ag = <<>>, !.ret = "inconsistent", !.inc = Inconsistent(Top.objs)]
  ELSE [s EXCEPT !.ag = <<[k |-> "dirs", nat |-> TRUE, wait |-> FALSE, dirs |-> FoldLeft(LAMBDA l, o : l \o o.sys, <<>>, Top.objs) \o FoldLeft(LAMBDA l, o : o.usr \o l, <<>>, Top.objs)]>>,
                 !.db = Link(Top.objs)]
AgStep == CASE Top.k = "nat" -> NatStep [] Top.k = "files" -> FilesStep [] Top.k = "comp" -> CompStep [] Top.k = "load" -> LoadStep [] Top.k = "dirs" -> DirsStep
(* -- the events -- *)
FirstDiff(a, b) == LET ds == {i \in 1..Len(a) : i > Len(b) \/ a[i] # b[i]} IN IF ds = {} THEN Len(a) + 1 ELSE CHOOSE i \in ds : \A j \in ds : i <= j
Row(p) == LET e == s.db[p] IN [p |-> p, dyn |-> e.dyn, pub |-> e.pub, mf |-> e.mf, nat |-> e.nat, file |-> e.file, line |-> Str(e.line), ids |-> IdText(e.cls)]
EvStep(e) ==
  CASE e.c = "edit" -> Ok([s EXCEPT !.files = Put(@, e.path, H.cont[e.v])])
    [] e.c \in {"load", "native"} ->
         IF ~s.on THEN [s EXCEPT !.on = TRUE, !.ag = <<IF e.c = "load" THEN Files(e.fs) ELSE [k |-> "nat", fs |-> e.fs, objs |-> <<>>]>>, !.out = <<>>, !.ret = ""]
         ELSE IF s.ag # <<>> THEN AgStep
         ELSE IF s.out # e.out THEN LET k == FirstDiff(s.out, e.out) IN Bad("loading: wrong messages", [at |-> k, expected |-> SubSeq(s.out, k, Len(s.out)), observed |-> SubSeq(e.out, k, Len(e.out))])
         ELSE IF s.ret # e.r THEN Bad("loading: wrong result", s.ret)
         ELSE IF s.ret = "inconsistent" /\ e.inc \notin s.inc THEN Bad("linking: wrong multifile conflict", s.inc)
         ELSE Ok(s)
    [] e.c = "dump" ->
         LET want == {Row(p) : p \in DOMAIN s.db \ {Tx}}
             fit(w, o) == w = o \/ (w.p = o.p /\ w.file = "" /\ w.dyn = o.dyn /\ w.pub = o.pub /\ w.mf = o.mf /\ w.nat = o.nat /\ w.ids = o.ids)
             got == ToSet(e.rows)
         IN IF Cardinality(got) = Len(e.rows) /\ (\A w \in want : \E o \in got : fit(w, o)) /\ (\A o \in got : \E w \in want : fit(w, o)) THEN Ok(s)
            ELSE Bad("the database after loading", [missing |-> {w \in want : \A o \in got : ~fit(w, o)}, extra |-> {o \in got : \A w \in want : ~fit(w, o)}])
    [] e.c = "assert" -> LET a == AssertFact(s.db, e.p, e.id) IN IF a.r = e.r THEN Ok([s EXCEPT !.db = a.db]) ELSE Bad("assertz/1: wrong result", a.r)
    [] e.c = "abolish" -> IF e.r = (IF Has(s.db, e.p) /\ ~s.db[e.p].dyn THEN "error(permission_error(modify,static_procedure," \o e.p \o "),abolish/1)" ELSE "ok")
                          THEN Ok(IF e.r = "ok" THEN [s EXCEPT !.db = Del(@, e.p)] ELSE s) ELSE Bad("abolish/1: wrong result", "")
    [] e.c = "op" -> Ok([s EXCEPT !.ops = IF e.on THEN @ \cup {e.o} ELSE @ \ {e.o}])
    [] e.c = "sw" -> Ok([s EXCEPT !.sw = e.on])
    [] OTHER -> Bad(e.c, "")
LNext == /\ s.ph = "run"
         /\ s' = IF s.i > Len(Evs) THEN [s EXCEPT !.ph = "done"] ELSE EvStep(Evs[s.i])
         /\ s'.ph # "run" => PrintT(<<"OUT", s.t, ToJson([bad |-> s'.bad, want |-> ToString(s'.want), i |-> s.i, n |-> s'.n, open |-> s'.open])>>)
LSpec == LInit /\ [][LNext]_s
=============================================================================
