------------------------------ MODULE StreamRun ------------------------------
(* Decides recorded histories of stream operations against Stream.tla.      *)
(* ss: the states that explain the history so far.                          *)
EXTENDS Stream, Json, IOUtils, TLC
VARIABLE s
Hist == JsonDeserialize(IOEnv.TESTS)
Init == \E t \in 1..Len(Hist) : s = [t |-> t, i |-> 1, ss |-> {}, bad |-> "", want |-> <<>>, n |-> 0, open |-> 0, ph |-> "run"]
Bad(why, w) == [s EXCEPT !.bad = why, !.want = w, !.ph = "done"]

Fits(e, o) == \/ o.k = "open"
              \/ /\ o.k = e.k
                 /\ o.k = "ok" => FitA(o.o, e.o)
                 /\ o.k = "err" => (o.e = AnyV \/ o.e = e.e)
Outs(ss, e) == UNION {Calls(S, e.p, e.a, e.got) : S \in ss}
Show(outs) == {<<o.k, o.o, o.e>> : o \in outs}
DoStep(e) ==
  LET outs == Outs(s.ss, e)
      fit == {o \in outs : Fits(e, o)}
  IN IF fit = {} THEN Bad(e.p, Show(outs))
     ELSE IF \E o \in fit : o.k = "open" THEN [s EXCEPT !.open = @ + 1, !.ph = "done"]
     ELSE [s EXCEPT !.ss = {o.s : o \in fit}, !.n = @ + 1]
QStep(e) ==
  IF RowsE(e.p, e.a) # {} THEN IF e.k = "err" /\ e.e \in RowsE(e.p, e.a) THEN s ELSE Bad(e.p, RowsE(e.p, e.a))
  ELSE LET fit == {S \in s.ss : e.k = "rows" /\ RowsFit(RowsOf(S, e.p, e.a).rows, e.rows)} IN
       IF fit = {} THEN Bad(e.p, {RowsOf(S, e.p, e.a).rows : S \in s.ss})
       ELSE [s EXCEPT !.ss = {RowsOf(S, e.p, e.a).s : S \in fit}, !.n = @ + 1]
(* An enumeration whose caller acts after each answer: every answer holds   *)
(* when it is given, none comes twice, and those that hold all along come   *)
ScanStep(e) ==
  LET rows(S) == RowsOf(S, e.p, e.a).rows
      one(acc, x) ==
        IF acc.bad # "" \/ acc.open THEN acc
        ELSE IF x.k # "row" THEN
          LET outs == Outs(acc.ss, x) fit == {o \in outs : Fits(x, o)} n == {o.s : o \in fit} IN
          IF n = {} THEN [acc EXCEPT !.bad = x.p, !.want = Show(outs)]
          ELSE IF \E o \in fit : o.k = "open" THEN [acc EXCEPT !.open = TRUE]
          ELSE [acc EXCEPT !.ss = n, !.keep = {r \in @ : \A S \in n : r \in rows(S)}]
        ELSE IF ~\E S \in acc.ss : \E r \in rows(S) : FitA(r, x.row) THEN [acc EXCEPT !.bad = "an answer that does not hold", !.want = {rows(S) : S \in acc.ss}]
        ELSE IF x.row \in acc.seen THEN [acc EXCEPT !.bad = "an answer that comes twice", !.want = x.row]
        ELSE [acc EXCEPT !.seen = @ \cup {x.row}]
      end == FoldLeft(one, [bad |-> "", want |-> <<>>, open |-> FALSE, ss |-> s.ss, keep |-> {r \in UNION {rows(S) : S \in s.ss} : \A S \in s.ss : r \in rows(S)}, seen |-> {}], e.items)
      miss == {r \in end.keep : ~\E g \in end.seen : FitA(r, g)}
  IN IF end.bad # "" THEN Bad(end.bad, end.want)
     ELSE IF end.open THEN [s EXCEPT !.open = @ + 1, !.ph = "done"]
     ELSE IF miss # {} THEN Bad("missing answers", miss)
     ELSE [s EXCEPT !.ss = end.ss, !.n = @ + 1]
(* the contents of a file that may be open for writing, seen from outside   *)
PhysOk(S, f, b) ==
  LET d == S.fs[f] w == {n \in DOMAIN S.st : S.st[n].fk = f /\ S.st[n].knd = "file" /\ IsOut(S, n)} IN
  IF \A n \in w : ~S.st[n].dirty THEN b = d
  ELSE \E n \in w : S.st[n].fl = ANY \/ (Len(b) >= S.st[n].fl /\ IsPrefix(b, d))
PhysStep(e) ==
  LET fit == {S \in s.ss : e.f \in DOMAIN S.fs /\ PhysOk(S, e.f, e.b)} IN
  IF fit = {} THEN Bad("contents of the file", {S.fs[e.f] : S \in s.ss}) ELSE [s EXCEPT !.ss = fit, !.n = @ + 1]
FilesStep(e) ==
  LET fit == {S \in s.ss : {x[1] : x \in ToSet(e.fs)} = DOMAIN S.fs /\ \A i \in 1..Len(e.fs) : S.fs[e.fs[i][1]] = e.fs[i][2]} IN
  IF fit = {} THEN Bad("contents of the files at the end", {S.fs : S \in s.ss}) ELSE [s EXCEPT !.n = @ + 1]
InitStep(e) == [s EXCEPT !.ss = {Init0([f \in {x[1] : x \in ToSet(e.fs)} |-> (CHOOSE x \in ToSet(e.fs) : x[1] = f)[2]])}]
Step(e) ==
  CASE e.c = "do" -> DoStep(e)
    [] e.c = "q" -> QStep(e)
    [] e.c = "scan" -> ScanStep(e)
    [] e.c = "phys" -> PhysStep(e)
    [] e.c = "files" -> FilesStep(e)
    [] e.c = "init" -> InitStep(e)
Evs == Hist[s.t].events
Next == /\ s.ph = "run"
        /\ s' = IF s.i > Len(Evs) THEN [s EXCEPT !.ph = "done"]
                ELSE LET n == Step(Evs[s.i]) IN IF n.ph = "run" THEN [n EXCEPT !.i = @ + 1] ELSE n
        /\ s'.ph # "run" => PrintT(<<"OUT", s.t, ToJson([bad |-> s'.bad, want |-> ToString(s'.want), i |-> s.i, n |-> s'.n, open |-> s'.open])>>)
Spec == Init /\ [][Next]_s
=============================================================================
