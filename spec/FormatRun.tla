------------------------------- MODULE FormatRun ------------------------------
(* Decides recorded calls of format/2,3: a state machine that interprets a    *)
(* control text directive by directive.  ctl/i: the control text and the next *)
(* character; args: the arguments left; L: the layout.                        *)
EXTENDS Format, Json, IOUtils, TLC
VARIABLE s
Hist == JsonDeserialize(IOEnv.TESTS)
L0 == [out |-> <<>>, pos |-> 0, tab |-> 0, seg |-> <<>>]
Init == \E t \in 1..Len(Hist) : s = [t |-> t, i |-> 1, L |-> L0, c |-> 0, args |-> <<>>, bad |-> "", want |-> <<>>, n |-> 0, open |-> 0, ph |-> "run", fin |-> <<>>, base |-> 0]
Bad(why, w) == [s EXCEPT !.bad = why, !.want = w, !.ph = "done"]
Open == [s EXCEPT !.open = @ + 1, !.ph = "done"]
Evs == Hist[s.t].events
E0 == Evs[s.i]
(* the call ends with one of these errors *)
Fails(L, es) ==
  IF E0.r = "err" /\ E0.e \in es THEN [s EXCEPT !.n = @ + 1, !.i = @ + 1, !.c = 0, !.fin = <<s.base, L.out \o SegText(L.seg)>>]
  ELSE Bad("error", es)
Done(L) ==
  LET tl == E0.tail
      es == IF s.args # <<>> \/ tl # NilT THEN
              (IF tl[1] = "v" THEN {InstE} ELSE IF tl # NilT THEN {TypeE("list", tl), TypeE("list", E0.whole)} ELSE {})
              \cup (IF s.args # <<>> THEN {DomE("number_of_arguments", E0.whole), DomE("number_of_arguments", NilT)} ELSE {})
            ELSE {}
  IN IF es # {} THEN Fails(EndCall(L), es)
     ELSE IF E0.r = "ok" THEN [s EXCEPT !.n = @ + 1, !.i = @ + 1, !.c = 0, !.L = EndCall(L), !.fin = <<>>]
     ELSE Bad("result", "success")
NoArg == IF E0.tail[1] = "v" THEN {InstE} ELSE IF E0.tail = NilT THEN {DomE("non_empty_list", NilT)} ELSE {TypeE("list", E0.tail), TypeE("list", E0.whole)}
Go(L, i, as) == [s EXCEPT !.L = L, !.c = i, !.args = as]
Txt(L, r, i, as) == IF r.k = "err" THEN Fails(L, r.e) ELSE IF r.k = "any" THEN Open ELSE Go(Put(L, r.txt), i, as)
T(x) == [k |-> "txt", txt |-> x, e |-> {}]
(* L: layout with the preceding text; c at position i of ctl; n: parameter (-1: none); as: arguments *)
Directive(L, ctl, i, n, as) ==
  LET c == IF i > Len(ctl) THEN 0 ELSE ctl[i]
      d(x) == IF n < 0 THEN x ELSE n
      needs == c \in {97, 99, 101, 69, 102, 70, 103, 71, 100, 68, 114, 82, 115, 105, 107, 113, 112, 119, 87}
      a == as[1]
      int == EvalInt(a.t)
      go(r) == Txt(L, r, i + 1, Tail(as))
  IN IF needs /\ as = <<>> THEN Fails(L, NoArg)
     ELSE CASE c = 97 -> IF a.t[1] = "v" THEN Fails(L, {InstE}) ELSE IF a.t[1] # "a" THEN Fails(L, {TypeE("atom", a.t)}) ELSE go(T(PadR(a.t[2], n)))
       [] c = 99 -> IF int.k # "n" THEN go(int) ELSE IF Small(int.t) /\ Num(int.t) \in 1..255 THEN go(T(Rep(Num(int.t), d(1)))) ELSE Fails(L, {Er("representation_error", "character_code", NoT)})
       [] c \in {101, 69, 102, 70, 103, 71} -> LET v == Eval(a.t) IN IF v.k # "n" THEN go(v) ELSE go(T(Sign(v.t) \o FloatText(v.t, c, n)))
       [] c \in {100, 68} -> IF int.k # "n" THEN go(int) ELSE go(T(Decimal(int.t, d(0), c = 68)))
       [] c \in {114, 82} -> IF int.k # "n" THEN go(int)
                             ELSE IF d(8) \notin 2..36 THEN Fails(L, {DomE("radix", IntT(n)), DomE("format_control_sequence", IntT(n))})
                             ELSE go(T(Sign(int.t) \o RadixText(int.t[3], d(8), IF c = 114 THEN 97 ELSE 65)))
       [] c = 115 -> LET x == TextOf(a.t) IN IF x.k = "txt" THEN go(T(IF n < 0 THEN x.txt ELSE PadR(SubSeq(x.txt, 1, Min2(n, Len(x.txt))), n))) ELSE go(x)
       [] c = 105 -> Go(L, i + 1, Tail(as))
       [] c = 107 -> go(T(a.k))
       [] c = 113 -> go(T(a.q))
       [] c = 112 -> go(T(a.p))
       [] c = 119 -> go(T(a.w))
       [] c = 87 -> IF Len(as) < 2 THEN Fails(L, NoArg) ELSE IF a.o.k = "err" THEN Fails(L, {a.o.e}) ELSE Txt(L, T(a.o.txt), i + 1, SubSeq(as, 3, Len(as)))
       [] c = 126 -> Go(Put(L, <<126>>), i + 1, as)
       [] c = 78 -> Go(IF Cur(L) > 0 THEN Put(L, <<10>>) ELSE L, i + 1, as)
       [] c = 110 -> Go(Put(L, Rep(10, d(1))), i + 1, as)
       [] c = 124 -> Go(Bound(L, d(Cur(L))), i + 1, as)
       [] c = 43 -> Go(Bound(L, L.tab + d(8)), i + 1, as)
       [] c = 116 -> IF d(32) = 10 \/ d(32) > 255 THEN Open ELSE Go([L EXCEPT !.seg = Append(@, -1 - d(32))], i + 1, as)
       [] c = 37 ->
          IF i < Len(ctl) /\ ctl[i + 1] = 37 THEN Go(Put(L, <<37>>), i + 2, as)
          ELSE LET j == CHOOSE j \in i + 1..Len(ctl) + 1 : /\ j > Len(ctl) \/ ctl[j] \notin 32..57
                                                          /\ \A m \in i + 1..j - 1 : ctl[m] \in 32..57
                   x == SubSeq(ctl, i + 1, j - 1)
                   stars == Len(SelectSeq(x, LAMBDA y : y = 42))
                   vals == [m \in 1..Min2(stars, Len(as)) |-> EvalInt(as[m].t)]
                   badv == {m \in 1..Len(vals) : vals[m].k # "n"}
                   conv == IF j > Len(ctl) THEN 0 ELSE ctl[j]
               IN IF badv # {} THEN (LET m == CHOOSE m \in badv : \A y \in badv : m <= y IN Txt(L, vals[m], i, as))
                  ELSE IF Len(as) < stars THEN Fails(L, NoArg)
                  ELSE IF conv \notin Convs THEN Fails(L, {DomE("format_control_sequence", <<"a", SubSeq(ctl, i, Min2(j, Len(ctl)))>>)})
                  ELSE IF Len(as) = stars THEN Fails(L, NoArg)
                  ELSE LET q == Spec0(x, [m \in 1..stars |-> IF Small(vals[m].t) THEN Num(vals[m].t) ELSE 0]) IN
                       IF ~q.ok \/ conv \in {97, 65} THEN Open
                       ELSE Txt(L, PrintfConv(conv, q.f, q.w, q.p, as[stars + 1].t), j + 1, SubSeq(as, stars + 2, Len(as)))
       [] OTHER -> Fails(L, {DomE("format_control_sequence", <<"a", IF c = 0 THEN <<>> ELSE <<c>>>>)})
(* one directive with the text before it *)
FmtStep(ctl) ==
  LET e == SelectInSeq(SubSeq(ctl, s.c, Len(ctl)), LAMBDA x : x = 126) IN
  IF e = 0 THEN Done(Put(s.L, SubSeq(ctl, s.c, Len(ctl))))
  ELSE LET p == s.c + e - 1                                   \* the ~
           L == Put(s.L, SubSeq(ctl, s.c, p - 1))
           x == IF p < Len(ctl) THEN ctl[p + 1] ELSE 0
       IN IF x = 42 THEN
            IF s.args = <<>> THEN Fails(L, NoArg)
            ELSE LET v == EvalInt(s.args[1].t) IN
                 IF v.k = "err" THEN Fails(L, v.e) ELSE IF v.k = "any" THEN Open
                 ELSE IF v.t[2] = 1 THEN Fails(L, {DomE("not_less_than_zero", v.t)})
                 ELSE IF ~Small(v.t) THEN Open
                 ELSE Directive(L, ctl, p + 2, Num(v.t), Tail(s.args))
          ELSE IF x = 96 /\ p + 2 <= Len(ctl) THEN Directive(L, ctl, p + 3, ctl[p + 2], s.args)
          ELSE LET j == DigitsTo(ctl, p + 1) IN
               IF j - p - 1 > 19 THEN Fails(L, {Er("evaluation_error", "int_overflow", NoT)})
               ELSE IF j - p - 1 > 9 THEN Open
               ELSE Directive(L, ctl, j, IF j = p + 1 THEN -1 ELSE CodesNum(SubSeq(ctl, p + 1, j - 1)), s.args)
Step ==
  CASE E0.c = "put" -> [s EXCEPT !.L = EndCall(Put(@, E0.codes)), !.i = @ + 1]
    [] E0.c = "fmt" ->
       IF s.c = 0 THEN       \* the control text itself
         LET x == TextOf(E0.ctl) IN
         IF x.k = "err" THEN [Fails(s.L, x.e) EXCEPT !.fin = IF @ = <<>> THEN @ ELSE <<Len(s.L.out), s.L.out>>] ELSE [s EXCEPT !.c = 1, !.args = E0.args, !.base = Len(s.L.out)]
       ELSE FmtStep(TextOf(E0.ctl).txt)
    [] E0.c = "text" ->
       \* how much of the text of a call that ends with an error has been written is not prescribed
       IF IF s.fin = <<>> THEN E0.codes = s.L.out ELSE Len(E0.codes) >= s.fin[1] /\ IsPrefix(E0.codes, s.fin[2])
       THEN [s EXCEPT !.n = @ + 1, !.i = @ + 1] ELSE Bad("text", IF s.fin = <<>> THEN s.L.out ELSE s.fin)
Next == /\ s.ph = "run"
        /\ s' = IF s.i > Len(Evs) THEN [s EXCEPT !.ph = "done"] ELSE Step
        /\ s'.ph # "run" => PrintT(<<"OUT", s.t, ToJson([bad |-> s'.bad, want |-> ToString(s'.want), i |-> s.i, n |-> s'.n, open |-> s'.open])>>)
Spec == Init /\ [][Next]_s
=============================================================================
