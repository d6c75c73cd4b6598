----------------------------- MODULE MachineRun -----------------------------
(* Runs the machine on the programs of a JSON file (environment variable    *)
(* TESTS) and prints the behaviour the specification prescribes for each:   *)
(* <<"OUT", test, json>>.  Many machine steps are one TLC step here.        *)
EXTENDS Machine, Json, IOUtils
VARIABLE s
Data == JsonDeserialize(IOEnv.TESTS)
ChrData == Data.chr
FloatData == Data.floats
Tests == Data.tests
(* a predicate list [[name, arity, [clause...]], ...] as a function         *)
AsFun(ps) == [key \in {<<ps[i][1], ps[i][2]>> : i \in 1..Len(ps)} |->
               ps[CHOOSE i \in 1..Len(ps) : <<ps[i][1], ps[i][2]>> = key][3]]
ConvClause(c) ==
  IF c.dcg THEN LET r == DcgRule(c.h, c.b, [i \in 1..c.n |-> Unbound], c.n)
                IN [h |-> r.h, b |-> Conv(r.b, [i \in 1..r.n |-> Unbound]), n |-> r.n]
  ELSE [h |-> c.h, b |-> Conv(c.b, [i \in 1..c.n |-> Unbound]), n |-> c.n]
WithIds(f) == [key \in DOMAIN f |-> [i \in 1..Len(f[key]) |->
                 [h |-> f[key][i].h, b |-> f[key][i].b, n |-> f[key][i].n, id |-> i]]]
Conved(ps) == [i \in 1..Len(ps) |-> <<ps[i][1], ps[i][2], [j \in 1..Len(ps[i][3]) |-> ConvClause(ps[i][3][j])]>>]
Progs == [t \in 1..Len(Tests) |-> AsFun(Conved(Tests[t].prog) \o Conved(Data.lib))]
Dyns == [t \in 1..Len(Tests) |-> WithIds(AsFun(Conved(Tests[t].dyn)))]

Chunk == [i \in 1..40 |-> i]
Init == \E t \in 1..Len(Tests) : s = InitMachine(t, Dyns[t], Tests[t].queries)
Run(m) == FoldLeft(LAMBDA x, i : IF Halted(x) THEN x ELSE Step(x, Progs[m.t]), m, Chunk)
Report(m) == PrintT(<<"OUT", m.t, ToJson([ph |-> m.ph, why |-> m.why, steps |-> m.steps, out |-> m.out])>>)
Next == ~Halted(s) /\ s' = Run(s) /\ (Halted(s') => Report(s'))
Spec == Init /\ [][Next]_s
=============================================================================
