-------------------------------- MODULE FdRun --------------------------------
(* Decides recorded histories of the finite domain solver against Fd.tla.   *)
(* A history is a sequence of events; the state is the store, the domains   *)
(* last shown, and the stack of choice points with the store and domains    *)
(* each has to give back.                                                   *)
EXTENDS Fd, Json, IOUtils
VARIABLE s
Hist == JsonDeserialize(IOEnv.TESTS)
Free == [k |-> "free"]
Init == \E t \in 1..Len(Hist) :
  LET der == Hist[t].der                \* variables that follow others: <<variable, switch or 0, distance>>
      n == Len(Hist[t].box) - Len(der)
      b == {a \o [k \in 1..Len(der) |-> (IF der[k][2] = 0 THEN a[der[k][1]] ELSE a[der[k][1]] * a[der[k][2]]) + der[k][3]] : a \in Box(SubSeq(Hist[t].box, 1, n))} IN
  s = [t |-> t, i |-> 1, st |-> [lo |-> b, hi |-> b], dom |-> [v \in 1..Len(Hist[t].box) |-> Free],
       stack |-> <<>>, failing |-> FALSE, bad |-> "", ph |-> "run"]

Bad(why) == [s EXCEPT !.bad = why, !.ph = "done"]
(* the common conditions on what is shown after a step that leads to store st                        *)
Shown(st, d, old) ==
  IF \E v \in 1..Len(d) : ~Wf(d[v]) THEN "a domain is described inconsistently"
  ELSE IF \E v \in 1..Len(d) : ~Within(d[v], old[v]) THEN "a domain grew"
  ELSE IF ~Keeps(d, st) THEN "a value of a solution was removed"
  ELSE IF AllInt(d) /\ (\A v \in 1..Len(d) : d[v].n \in ToSet(Hist[s.t].box[v])) /\ Tuple(d) \notin st.hi THEN "the values are no solution"
  ELSE ""
Step(e) ==
  IF s.failing /\ e.e # "undo" /\ ~(e.e = "end" /\ s.stack = <<>>) THEN Bad("execution continued after a failure")
  ELSE
  CASE e.e = "op" ->
        LET st == Post(s.st, e.c) IN
        IF e.r = "fail" THEN
          IF st.lo # {} THEN Bad("a constraint with solutions failed")
          ELSE IF e.dom # s.dom THEN Bad("a failure did not restore the domains")
          ELSE [s EXCEPT !.failing = TRUE]
        ELSE IF e.r # "ok" THEN
          \* a truth value other than 0 and 1 (a value it may get while an expression without value is loaded)
          IF ~\E v \in BoolVars(e.c) : \E n \in (ToSet(Hist[s.t].box[v]) \cup (IF s.dom[v].k = "int" THEN {s.dom[v].n} ELSE {})) \ {0, 1} :
                e.r = "err type_error(fd_bool_evaluable," \o ToString(n) \o ")" /\ In(s.dom[v], n) /\ (s.dom[v].k = "int" \/ st.lo # st.hi)
            THEN Bad("error")
          ELSE IF e.dom # s.dom THEN Bad("an error did not restore the domains")
          ELSE s
        ELSE IF Lost(e.dom) THEN [s EXCEPT !.ph = "skip"]
        ELSE LET w == Shown(st, e.dom, s.dom) IN
          IF w # "" THEN Bad(w) ELSE [s EXCEPT !.st = st, !.dom = e.dom]
    [] e.e = "err" -> IF ToString(e.r) = ToString(e.x) THEN s ELSE Bad("error expected")
    [] e.e = "push" -> [s EXCEPT !.stack = Append(@, [id |-> e.id, st |-> s.st, dom |-> s.dom])]
    [] e.e = "undo" ->
        LET k == IF e.k = "tryc" /\ ~s.failing THEN SelectLastInSeq(s.stack, LAMBDA x : x.id = e.id) ELSE Len(s.stack) IN   \* an exception drops choice points
        IF k = 0 \/ s.stack[k].id # e.id THEN Bad("wrong choice point")
        ELSE IF e.dom # s.stack[k].dom THEN Bad("backtracking did not restore the domains")
        ELSE [s EXCEPT !.st = s.stack[k].st, !.dom = e.dom, !.stack = SubSeq(@, 1, k - 1), !.failing = FALSE]
    [] e.e = "keep" ->
        IF ~\E i \in 1..Len(s.stack) : s.stack[i].id = e.id THEN Bad("wrong choice point")
        ELSE IF e.dom # s.dom THEN Bad("a cut changed the domains")
        ELSE [s EXCEPT !.stack = SubSeq(@, 1, Max({i \in 1..Len(@) : @[i].id = e.id}) - 1)]
    [] e.e = "sols" ->
        LET l == e.l
            S == ToSet(l) IN
        IF Cardinality(S) # Len(l) THEN Bad("a solution was enumerated twice")
        ELSE IF ~(s.st.lo \subseteq S) THEN Bad("a solution was not enumerated")
        ELSE IF ~(S \subseteq s.st.hi) THEN Bad("an assignment that is no solution was enumerated")
        ELSE IF ~OrderOk(l, s.dom, e.vs, e.vm, e.vals) THEN Bad("the solutions come in a wrong order")
        ELSE IF e.dom # s.dom THEN Bad("backtracking did not restore the domains")
        ELSE s
    [] e.e = "nth" ->       \* the n-th solution of a labeling of the variables vs
        IF e.r = "fail" THEN
          IF Cardinality({[i \in 1..Len(e.vs) |-> a[e.vs[i]]] : a \in s.st.lo}) >= e.n THEN Bad("a solution was not enumerated")
          ELSE IF e.dom # s.dom THEN Bad("a failure did not restore the domains")
          ELSE [s EXCEPT !.failing = TRUE]
        ELSE
          LET is == {i \in 1..Len(e.dom) : e.dom[i].k = "int"}
              st == [lo |-> {a \in s.st.lo : \A i \in is : a[i] = e.dom[i].n}, hi |-> {a \in s.st.hi : \A i \in is : a[i] = e.dom[i].n}]
              w == Shown(st, e.dom, s.dom) IN
          IF \E i \in 1..Len(e.vs) : e.vs[i] \notin is THEN Bad("a labeled variable has no value")
          ELSE IF w # "" THEN Bad(w) ELSE [s EXCEPT !.st = st, !.dom = e.dom]
    [] e.e = "best" ->      \* fd_minimize, fd_maximize over a labeling of all variables
        IF s.st.lo # s.st.hi THEN [s EXCEPT !.ph = "skip"]
        ELSE IF e.r = "fail" THEN
          IF s.st.lo # {} THEN Bad("no optimum found")
          ELSE IF e.dom # s.dom THEN Bad("a failure did not restore the domains")
          ELSE [s EXCEPT !.failing = TRUE]
        ELSE IF e.r # "ok" THEN Bad("error")
        ELSE
          LET vals == {a[e.v] : a \in s.st.lo}
              opt == IF vals = {} THEN U ELSE IF e.min THEN Min(vals) ELSE Max(vals) IN
          IF ~AllInt(e.dom) \/ Tuple(e.dom) \notin s.st.lo THEN Bad("the values are no solution")
          ELSE IF e.dom[e.v].n # opt THEN Bad("not the optimum")
          ELSE [s EXCEPT !.st = [lo |-> {Tuple(e.dom)}, hi |-> {Tuple(e.dom)}], !.dom = e.dom]
    [] e.e = "end" -> IF s.failing /\ s.stack # <<>> THEN Bad("a choice point was lost") ELSE [s EXCEPT !.ph = "done"]
    [] OTHER -> Bad(e.e)

Evs == Hist[s.t].events
Next == /\ s.ph = "run"
        /\ s' = IF s.i > Len(Evs) THEN Bad("the history stops")
                ELSE LET n == Step(Evs[s.i]) IN IF n.ph = "run" THEN [n EXCEPT !.i = @ + 1] ELSE n
        /\ s'.ph # "run" => PrintT(<<"OUT", s.t, ToJson([ph |-> s'.ph, why |-> s'.bad, i |-> s.i, n |-> Cardinality(s.st.lo)])>>)
Spec == Init /\ [][Next]_s
=============================================================================
