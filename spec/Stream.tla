-------------------------------- MODULE Stream --------------------------------
(* Streams: files, aliases, mirrors, push-back, end-of-file actions,         *)
(* positions and counters, properties, constant term streams and the DEC-10  *)
(* predicates, as documented in the manual.  A state S holds                 *)
(*   fs   contents of the files (name -> bytes)                              *)
(*   st   the open streams (number -> record, see Fresh)                     *)
(*   al   the aliases (name -> stream number)                                *)
(*   dec  the streams opened by see/tell/append: <<file, number, mode>>      *)
(* A call has a set of outcomes: ok with its arguments, failure, or an       *)
(* error, each with the state after it.  When several errors apply any of    *)
(* them may be reported, and an error changes nothing.                       *)
(*                                                                           *)
(* Terms: <<"v">> variable, <<"a",name>> atom, <<"c",code>> atom of one      *)
(* character, <<"i",n>> integer, <<"st",n>> stream, <<"p",off,cc,lc,lp>>     *)
(* position, <<"o",name,arg>> compound with one argument, <<"l",seq,tail>>   *)
(* list (tail "nil", "var" or "other"), <<"txt",codes>> text of a constant,  *)
(* <<"x",..>> any other term.                                                *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Functions

EOF == -1
ANY == -99
AnyV == <<"any">>
IsVar(x) == x[1] = "v"
At(a) == <<"a", a>>
Chr(c) == IF c = EOF THEN At("end_of_file") ELSE <<"c", c>>
IntV(i) == <<"i", i>>
St(n) == <<"st", n>>
Opt(f, x) == <<"o", f, x>>
IsAtom(x) == x[1] \in {"a", "c"}
IE == <<"inst">>
TE(t, x) == <<"type", t, x>>
DE(d, x) == <<"dom", d, x>>
EX(k, x) == <<"ex", k, x>>
PE(o, t, x) == <<"perm", o, t, x>>
RE(t) == <<"rep", t>>
UE(x) == <<"uninst", x>>
SE(k) == <<"sys">>
CurIn == At("current_input_stream")
CurOut == At("current_output_stream")

Fresh(f, md, tx, rp, ea, bf, knd) ==
  [f |-> f,           \* name, as given to open
   fk |-> f,          \* file whose contents it reads or writes
   md |-> md,         \* "read" | "write" | "append"
   tx |-> tx,         \* text (or binary)
   rp |-> rp,         \* can be repositioned
   ea |-> ea,         \* end-of-file action
   bf |-> bf,         \* buffering
   knd |-> knd,       \* "std" | "file" | "mem"
   data |-> <<>>,     \* contents of a constant term stream
   o |-> 0,           \* offset of the next byte of the file
   pb |-> <<>>,       \* characters pushed back, the next one first
   past |-> FALSE,    \* the end of file has been read
   cc |-> 0, lc |-> 0, lp |-> 0,
   kn |-> TRUE,       \* are the counters determined?
   hist |-> <<>>,     \* characters read, last first, with the line counters before
   mir |-> {},
   fl |-> 0,          \* written bytes known to be in the file (ANY: not determined)
   dirty |-> FALSE]
Std == (0 :> [Fresh("user_input", "read", TRUE, TRUE, "reset", "block", "std") EXCEPT !.fk = "<0>"])
    @@ (1 :> [Fresh("user_output", "write", TRUE, TRUE, "reset", "block", "std") EXCEPT !.fk = "<1>"])
    @@ (2 :> [Fresh("user_error", "write", TRUE, TRUE, "reset", "block", "std") EXCEPT !.fk = "<2>"])
InAl == {"user_input", "current_input", "top_level_input", "debugger_input"}
OutAl == {"user_output", "current_output", "top_level_output", "debugger_output"}
ErrAl == {"user_error"}
StdOf(a) == IF a \in InAl THEN 0 ELSE IF a \in OutAl THEN 1 ELSE 2
Init0(files) == [fs |-> files, st |-> Std, al |-> [a \in InAl \cup OutAl \cup ErrAl |-> StdOf(a)], dec |-> <<>>]

(* outcomes *)
Ok(S, o) == [k |-> "ok", o |-> o, e |-> <<>>, s |-> S]
Fail(S) == [k |-> "fail", o |-> <<>>, e |-> <<>>, s |-> S]
Errs(S, es) == {[k |-> "err", o |-> <<>>, e |-> x, s |-> S] : x \in es}
Open(S) == [k |-> "open", o |-> <<>>, e |-> <<>>, s |-> S]

(* does what was seen (g) fit what is wanted (w)? *)
RECURSIVE FitV(_, _)
FitV(w, g) ==
  \/ w = AnyV
  \/ /\ w[1] = g[1]
     /\ \/ w[1] = "p" /\ \A i \in 2..5 : w[i] = ANY \/ w[i] = g[i]
        \/ w[1] = "o" /\ w[2] = g[2] /\ FitV(w[3], g[3])
        \/ w[1] \notin {"p", "o"} /\ w = g
FitA(w, g) == Len(w) = Len(g) /\ \A i \in 1..Len(w) : FitV(w[i], g[i])

(* unify the argument x with the value v *)
Uni(x, v) == IsVar(x) \/ FitV(v, x)
MayFail(x, v) == ~IsVar(x) /\ (~FitV(v, x) \/ v = AnyV)

-----------------------------------------------------------------------------
(* stream arguments *)
Num(S, x) ==
  IF x[1] = "st" THEN IF x[2] \in DOMAIN S.st THEN x[2] ELSE -1
  ELSE IF x[1] = "a" THEN IF x[2] \in DOMAIN S.al THEN S.al[x[2]] ELSE -1
  ELSE -1
IsOut(S, n) == S.st[n].md # "read"
ResE(S, x, t) ==
  IF IsVar(x) THEN {IE}
  ELSE IF x[1] \notin {"a", "c", "st"} THEN {DE("stream_or_alias", x)}
  ELSE IF Num(S, x) = -1 THEN {EX("stream", x)}
  ELSE IF t = "in" /\ IsOut(S, Num(S, x)) THEN {PE("input", "stream", x)}
  ELSE IF t = "out" /\ ~IsOut(S, Num(S, x)) THEN {PE("output", "stream", x)}
  ELSE {}

-----------------------------------------------------------------------------
(* characters *)
Data(S, n) == IF S.st[n].knd = "mem" THEN S.st[n].data ELSE S.fs[S.st[n].fk]
Count(r, c) == IF c = 10 THEN [r EXCEPT !.cc = @ + 1, !.lc = @ + 1, !.lp = 0] ELSE [r EXCEPT !.cc = @ + 1, !.lp = @ + 1]
Clean(r, c) == r.bf = "none" \/ (r.bf = "line" /\ c = 10)
PutRaw(S, n, c) ==
  LET r == S.st[n]
      d == Data(S, n)
      nd == IF r.knd = "mem" \/ r.md = "append" \/ r.o >= Len(d) THEN Append(d, c) ELSE [d EXCEPT ![r.o + 1] = c]
      r1 == Count(r, c)
  IN IF r.knd = "mem" THEN [S EXCEPT !.st[n] = [r1 EXCEPT !.data = nd]]
     ELSE LET no == IF r.md = "append" THEN Len(nd) ELSE r.o + 1 IN
          [S EXCEPT !.fs[r.fk] = nd,
                    !.st[n] = [r1 EXCEPT !.o = no,
                                         !.dirty = ~Clean(r, c),
                                         !.fl = IF Clean(r, c) THEN no ELSE @]]
RECURSIVE Put(_, _, _)
Put(S, n, c) == FoldLeft(LAMBDA a, m : Put(a, m, c), PutRaw(S, n, c), SetToSeq(S.st[n].mir))
PutAll(S, n, cs) == FoldLeft(LAMBDA a, c : Put(a, n, c), S, cs)
(* the next character: pushed back ones first; those fetched go to mirrors *)
Fetch(S, n) ==
  LET r == S.st[n] d == Data(S, n) IN
  IF r.pb # <<>> THEN [c |-> Head(r.pb), s |-> [S EXCEPT !.st[n].pb = Tail(@)]]
  ELSE IF r.o >= Len(d) THEN [c |-> EOF, s |-> S]
  ELSE LET c == d[r.o + 1] IN
       [c |-> c, s |-> FoldLeft(LAMBDA a, m : Put(a, m, c), [S EXCEPT !.st[n].o = @ + 1], SetToSeq(r.mir))]
Moved(r, o, cc, lc, lp) == [r EXCEPT !.o = o, !.cc = cc, !.lc = lc, !.lp = lp, !.pb = <<>>, !.past = FALSE, !.kn = TRUE, !.hist = <<>>]
PastE(S, n, cul) == IF S.st[n].past /\ S.st[n].ea = "error" THEN {PE("input", "past_end_of_stream", cul)} ELSE {}
Stuck(S, n) == S.st[n].past /\ S.st[n].ea = "eof_code"
Again(S, n) ==
  LET r == S.st[n] IN
  IF ~r.past THEN S
  ELSE IF r.rp THEN [S EXCEPT !.st[n] = IF r.tx THEN Moved(r, 0, 0, 0, 0) ELSE Moved(r, 0, 0, r.lc, r.lp)]
  ELSE [S EXCEPT !.st[n].past = FALSE]
Getc(S, n) ==
  IF Stuck(S, n) THEN [c |-> EOF, s |-> S]
  ELSE LET f == Fetch(Again(S, n), n) r == f.s.st[n] IN
       IF f.c = EOF THEN [c |-> EOF, s |-> [f.s EXCEPT !.st[n].past = TRUE]]
       ELSE [c |-> f.c, s |-> [f.s EXCEPT !.st[n] = [Count(r, f.c) EXCEPT !.hist = <<<<f.c, r.lc, r.lp>>>> \o r.hist]]]
Peekc(S, n) ==
  IF Stuck(S, n) THEN [c |-> EOF, s |-> S]
  ELSE LET f == Fetch(Again(S, n), n) IN [c |-> f.c, s |-> [f.s EXCEPT !.st[n].pb = <<f.c>> \o @]]
Unget(S, n, c) ==
  LET r == S.st[n]
      r1 == [r EXCEPT !.pb = <<c>> \o @, !.past = FALSE]
  IN [S EXCEPT !.st[n] =
        IF r.kn /\ r.hist # <<>> /\ r.hist[1][1] = c
        THEN [r1 EXCEPT !.cc = @ - 1, !.lc = r.hist[1][2], !.lp = r.hist[1][3], !.hist = Tail(@)]
        ELSE [r1 EXCEPT !.kn = FALSE, !.hist = <<>>]]
EndOf(S, n) ==      \* <<not|at|past, state>>
  LET r == S.st[n] IN
  IF r.ea = "reset" \/ r.md # "read" THEN <<"not", S>>
  ELSE IF r.past THEN <<"past", S>>
  ELSE LET p == Peekc(S, n) IN <<IF p.c = EOF THEN "at" ELSE "not", p.s>>

Off(S, n) ==
  LET r == S.st[n] x == r.o - Len(SelectSeq(r.pb, LAMBDA c : c # EOF)) IN
  IF ~r.rp THEN 0 ELSE IF x < 0 THEN 0 ELSE x
Pos(S, n) ==
  LET r == S.st[n] k(v) == IF r.kn THEN v ELSE ANY IN
  <<"p", Off(S, n), k(r.cc), IF r.tx THEN k(r.lc) ELSE 0, IF r.tx THEN k(r.lp) ELSE 0>>
Cnt(S, n, v) == IF S.st[n].kn THEN IntV(v) ELSE AnyV

InOf(S) == S.al["current_input"]
OutOf(S) == S.al["current_output"]
TypeE(S, n, k, io, cul) ==
  IF k = "byte" THEN IF S.st[n].tx THEN {PE(io, "text_stream", cul)} ELSE {}
  ELSE IF S.st[n].tx THEN {} ELSE {PE(io, "binary_stream", cul)}
InArgE(k, x) ==     \* argument that receives what is read
  IF IsVar(x) THEN {}
  ELSE IF k = "char" THEN IF x[1] = "c" \/ x = At("end_of_file") THEN {} ELSE {TE("in_character", x)}
  ELSE IF k = "code" THEN IF x[1] # "i" THEN {TE("integer", x)} ELSE IF x[2] \in -1..255 THEN {} ELSE {RE("in_character_code")}
  ELSE IF x[1] = "i" /\ x[2] \in -1..255 THEN {} ELSE {TE("in_byte", x)}
OutArgE(k, x) ==    \* character to write or to push back
  IF IsVar(x) THEN {IE}
  ELSE IF k = "char" THEN IF x[1] = "c" THEN {} ELSE {TE("character", x)}
  ELSE IF k = "code" THEN IF x[1] # "i" THEN {TE("integer", x)} ELSE IF x[2] \in 0..255 THEN {} ELSE {RE("character_code")}
  ELSE IF x[1] = "i" /\ x[2] \in 0..255 THEN {} ELSE {TE("byte", x)}

(* predicates with an optional stream argument: na arguments without it *)
Has(a, na) == Len(a) > na
SE1(S, a, na, t) == IF Has(a, na) THEN ResE(S, a[1], t) ELSE {}
SN(S, a, na, t) == IF Has(a, na) THEN Num(S, a[1]) ELSE IF t = "in" THEN InOf(S) ELSE OutOf(S)
Cul(a, na, t) == IF Has(a, na) THEN a[1] ELSE IF t = "in" THEN CurIn ELSE CurOut
WithLast(a, v) == [a EXCEPT ![Len(a)] = v]
Bind(S, a, v) == (IF Uni(Last(a), v) THEN {Ok(S, WithLast(a, IF IsVar(Last(a)) THEN v ELSE Last(a)))} ELSE {})
                 \cup (IF MayFail(Last(a), v) THEN {Fail(S)} ELSE {})

DoRead(S, a, k, peek) ==
  LET x == Last(a)
      re == SE1(S, a, 1, "in")
      n == SN(S, a, 1, "in")
      cul == Cul(a, 1, "in")
      es == IF re # {} THEN re \cup InArgE(k, x) ELSE TypeE(S, n, k, "input", cul) \cup InArgE(k, x) \cup PastE(S, n, cul)
  IN IF es # {} THEN Errs(S, es)
     ELSE LET g == IF peek THEN Peekc(S, n) ELSE Getc(S, n) IN
          IF Len(g.s.st[n].pb) > 8 THEN {Open(S)}
          ELSE Bind(g.s, a, IF k = "char" THEN Chr(g.c) ELSE IntV(g.c))
DoUnget(S, a, k) ==
  LET x == Last(a)
      re == SE1(S, a, 1, "in")
      n == SN(S, a, 1, "in")
      es == OutArgE(k, x) \cup (IF re # {} THEN re ELSE TypeE(S, n, k, "input", Cul(a, 1, "in")))
  IN IF es # {} THEN Errs(S, es)
     ELSE IF Len(S.st[n].pb) >= 8 THEN {Open(S)}
     ELSE {Ok(Unget(S, n, x[2]), a)}
DoPut(S, a, k) ==
  LET x == Last(a)
      re == SE1(S, a, 1, "out")
      n == SN(S, a, 1, "out")
      es == OutArgE(k, x) \cup (IF re # {} THEN re ELSE TypeE(S, n, k, "output", Cul(a, 1, "out")))
  IN IF es # {} THEN Errs(S, es) ELSE {Ok(Put(S, n, x[2]), a)}
DoText(S, a, na, cs) ==      \* nl, write
  LET re == SE1(S, a, na, "out")
      n == SN(S, a, na, "out")
      es == IF re # {} THEN re ELSE TypeE(S, n, "char", "output", Cul(a, na, "out"))
  IN IF es # {} THEN Errs(S, es) ELSE {Ok(PutAll(S, n, cs), a)}
FlushS(S, n) == IF IsOut(S, n) /\ S.st[n].knd # "mem" THEN [S EXCEPT !.st[n].dirty = FALSE, !.st[n].fl = IF S.st[n].fl = ANY THEN ANY ELSE Len(Data(S, n))] ELSE S
DoFlush(S, a) ==
  LET re == SE1(S, a, 0, "out") IN
  IF re # {} THEN Errs(S, re) ELSE {Ok(FlushS(S, SN(S, a, 0, "out")), a)}
DoEos(S, a) ==
  LET re == SE1(S, a, 0, "in") IN
  IF re # {} THEN Errs(S, re)
  ELSE LET x == EndOf(S, SN(S, a, 0, "in")) IN IF x[1] = "not" THEN {Fail(x[2])} ELSE {Ok(x[2], a)}

-----------------------------------------------------------------------------
(* opening and closing *)
NoFile == {"nodir/x", "f1/x"}
NoOpen == {"dd"}
OptE(S, o) ==
  IF IsVar(o) THEN {IE}
  ELSE IF o[1] # "o" THEN {DE("stream_option", o)}
  ELSE LET x == o[3]
           one(vals) == IF IsVar(x) THEN {IE, DE("stream_option", o)} ELSE IF x[1] = "a" /\ x[2] \in vals THEN {} ELSE {DE("stream_option", o)}
       IN CASE o[2] = "type" -> one({"text", "binary"})
            [] o[2] = "reposition" -> one({"true", "false"})
            [] o[2] = "eof_action" -> one({"error", "eof_code", "reset"})
            [] o[2] = "buffering" -> one({"none", "line", "block"})
            [] o[2] = "alias" -> IF IsVar(x) THEN {IE, DE("stream_option", o)}
                                 ELSE IF ~IsAtom(x) THEN {DE("stream_option", o)}
                                 ELSE IF Num(S, x) # -1 THEN {PE("open", "source_sink", o)} ELSE {}
            [] o[2] = "mirror" -> IF IsVar(x) THEN {IE, DE("stream_option", o)}
                                  ELSE IF x[1] \in {"a", "c", "st"} THEN ResE(S, x, "out") ELSE {DE("stream_option", o)}
            [] OTHER -> {DE("stream_option", o)}
ListE(l, el(_)) ==
  IF IsVar(l) THEN {IE}
  ELSE IF l[1] # "l" THEN {TE("list", l)}
  ELSE (IF l[3] = "var" THEN {IE} ELSE IF l[3] = "other" THEN {TE("list", l)} ELSE {}) \cup UNION {el(l[2][i]) : i \in 1..Len(l[2])}
CloseOptE(o) ==
  IF IsVar(o) THEN {IE}
  ELSE IF o[1] = "o" /\ o[2] = "force" THEN
       IF IsVar(o[3]) THEN {IE, DE("close_option", o)} ELSE IF o[3] \in {At("true"), At("false")} THEN {} ELSE {DE("close_option", o)}
  ELSE {DE("close_option", o)}
FileE(S, f, md) ==
  IF IsVar(f) THEN {IE}
  ELSE IF ~IsAtom(f) THEN {DE("source_sink", f)}
  ELSE IF f[2] \in NoFile \/ (md = "read" /\ f[2] \notin DOMAIN S.fs /\ f[2] \notin NoOpen) THEN {EX("source_sink", f)}
  ELSE IF f[2] \in NoOpen /\ md # "read" THEN {PE("open", "source_sink", f)} ELSE {}
ModeE(m) ==
  IF IsVar(m) THEN {IE} ELSE IF ~IsAtom(m) THEN {TE("atom", m)}
  ELSE IF m[1] = "a" /\ m[2] \in {"read", "write", "append"} THEN {} ELSE {DE("io_mode", m)}
LastOpt(os, nm, dflt) == LET q == SelectSeq(os, LAMBDA o : o[2] = nm) IN IF q = <<>> THEN dflt ELSE Last(q)[3][2]
OptVals(os, nm) == {os[i][3] : i \in {j \in 1..Len(os) : os[j][2] = nm}}
(* got: the number of the new stream, as seen; it must be a new one *)
AddFile(S, f, md, os, got) ==
  LET fs1 == IF md = "write" THEN (f :> <<>>) @@ S.fs ELSE IF f \in DOMAIN S.fs THEN S.fs ELSE (f :> <<>>) @@ S.fs
      r0 == Fresh(f, md, LastOpt(os, "type", "text") = "text", LastOpt(os, "reposition", "true") = "true", LastOpt(os, "eof_action", "eof_code"),
                  LastOpt(os, "buffering", "block"), "file")
      r == [r0 EXCEPT !.o = IF md = "append" THEN Len(fs1[f]) ELSE 0, !.fl = Len(fs1[f]),
                      !.mir = {Num(S, x) : x \in OptVals(os, "mirror")}]
      al1 == [a \in DOMAIN S.al \cup {x[2] : x \in OptVals(os, "alias")} |-> IF a \in DOMAIN S.al THEN S.al[a] ELSE got]
  IN [S EXCEPT !.fs = fs1, !.st = (got :> r) @@ @, !.al = al1]
DoOpen(S, a, got) ==
  LET l == IF Len(a) = 4 THEN a[4] ELSE <<"l", <<>>, "nil">>
      me == ModeE(a[2])
      es == (IF IsVar(a[3]) THEN {} ELSE {UE(a[3])}) \cup ListE(l, LAMBDA o : OptE(S, o)) \cup me
            \cup (IF me = {} THEN FileE(S, a[1], a[2][2]) ELSE FileE(S, a[1], "read"))
  IN IF es # {} THEN Errs(S, es)
     ELSE IF got \in DOMAIN S.st THEN {}
     ELSE {Ok(AddFile(S, a[1][2], a[2][2], l[2], got), [a EXCEPT ![3] = St(got)])}
NewAl(S, n, ui) == [x \in {y \in DOMAIN S.al : S.al[y] # n \/ y \in InAl \cup OutAl \cup ErrAl} |-> IF S.al[x] # n THEN S.al[x] ELSE IF ui THEN StdOf(x) ELSE
     (CASE x = "current_input" -> S.al["user_input"] [] x = "current_output" -> S.al["user_output"] [] OTHER -> StdOf(x))]
Drop(S, n, al) ==
  [S EXCEPT !.al = al, !.st = [m \in DOMAIN S.st \ {n} |-> [S.st[m] EXCEPT !.mir = @ \ {n}]]]
CloseN(S, n) ==      \* possible states after closing n
  LET S1 == FlushS(S, n)
      als == {NewAl(S1, n, TRUE)} \cup (IF S.al["user_input"] # n /\ S.al["user_output"] # n THEN {NewAl(S1, n, FALSE)} ELSE {})
  IN IF S.st[n].knd = "std" THEN {[S1 EXCEPT !.al = x] : x \in als} ELSE {Drop(S1, n, x) : x \in als}
DoClose(S, a) ==
  LET l == IF Len(a) = 2 THEN a[2] ELSE <<"l", <<>>, "nil">>
      re == ResE(S, a[1], "ex")
      es == re \cup ListE(l, LAMBDA o : CloseOptE(o)) \cup (IF re = {} /\ S.st[Num(S, a[1])].knd = "mem" THEN {SE("needs_special_close")} ELSE {})
  IN IF es # {} THEN Errs(S, es) ELSE {Ok(x, a) : x \in CloseN(S, Num(S, a[1]))}

(* constant term streams *)
DoOpenTerm(S, a, out, got) ==
  LET x == Last(a)
      es == (IF IsVar(x) THEN {} ELSE {UE(x)}) \cup
            (IF out THEN {} ELSE IF IsVar(a[1]) THEN {IE} ELSE IF a[1][1] # "txt" THEN {<<"any">>} ELSE {})
      r == [Fresh("constant term stream", IF out THEN "write" ELSE "read", TRUE, FALSE, "eof_code", "none", "mem") EXCEPT !.data = IF out THEN <<>> ELSE a[1][2]]
  IN IF es # {} THEN Errs(S, es)
     ELSE IF got \in DOMAIN S.st THEN {}
     ELSE {Ok([S EXCEPT !.st = (got :> r) @@ @], WithLast(a, St(got)))}
DoCloseTerm(S, a, out) ==
  LET re == ResE(S, a[1], "ex")
      n == Num(S, a[1])
      es == IF re # {} THEN re
            ELSE IF S.st[n].knd # "mem" THEN {DE("term_stream_or_alias", a[1])}
            ELSE IF IsOut(S, n) # out THEN {PE("close", "stream", a[1])} ELSE {}
  IN IF es # {} THEN Errs(S, es)
     ELSE IF ~out THEN {Ok(Drop(S, n, x), a) : x \in {NewAl(S, n, TRUE), NewAl(S, n, FALSE)}}
     ELSE LET v == <<"txt", S.st[n].data>> IN
          IF Uni(a[2], v) THEN {Ok(Drop(S, n, x), <<a[1], v>>) : x \in {NewAl(S, n, TRUE), NewAl(S, n, FALSE)}} ELSE {Fail(S)}

-----------------------------------------------------------------------------
(* current streams, aliases, mirrors, modifications *)
StreamArgE(x) == IF IsVar(x) \/ x[1] = "st" THEN {} ELSE {DE("stream", x)}
DoCur(S, a, n) == LET es == StreamArgE(a[1]) IN IF es # {} THEN Errs(S, es) ELSE Bind(S, a, St(n))
DoSet(S, a, al, t) == LET es == ResE(S, a[1], t) IN IF es # {} THEN Errs(S, es) ELSE {Ok([S EXCEPT !.al[al] = Num(S, a[1])], a)}
AtomE(x) == IF IsVar(x) THEN {IE} ELSE IF IsAtom(x) THEN {} ELSE {TE("atom", x)}
SetAl(S, n, nm) == [S EXCEPT !.al = (nm :> n) @@ @]
DoAddAlias(S, a, re) ==
  LET es == ResE(S, a[1], "ex") \cup AtomE(a[2]) IN
  IF es # {} THEN Errs(S, es)
  ELSE LET n == Num(S, a[1]) nm == a[2][2] IN
       IF ~re /\ nm \in DOMAIN S.al /\ S.al[nm] # n THEN Errs(S, {PE("add_alias", "source_sink", Opt("alias", a[2]))})
       ELSE {Ok(SetAl(S, n, nm), a)}
DoMirror(S, a, add) ==
  LET es == ResE(S, a[1], "ex") \cup ResE(S, a[2], IF add THEN "out" ELSE "ex") IN
  IF es # {} THEN Errs(S, es)
  ELSE LET n == Num(S, a[1]) m == Num(S, a[2]) IN
       IF add THEN {Ok(IF n = m THEN S ELSE [S EXCEPT !.st[n].mir = @ \cup {m}], a)}
       ELSE IF m \in S.st[n].mir THEN {Ok([S EXCEPT !.st[n].mir = @ \ {m}], a)} ELSE {Fail(S)}
ValE(x, vals, dom) == IF IsVar(x) THEN {IE} ELSE IF x[1] = "a" /\ x[2] \in vals THEN {} ELSE {DE(dom, x)}
DoSetType(S, a) ==
  LET re == ResE(S, a[1], "ex")
      es == re \cup ValE(a[2], {"text", "binary"}, "stream_type")
      n == Num(S, a[1])
      tx == a[2] = At("text")
      pe == Errs(S, {PE("modify", "stream", a[1])})
      ok == {Ok([S EXCEPT !.st[n].tx = tx], a)}
  IN IF es # {} THEN Errs(S, es)
     ELSE IF tx = S.st[n].tx THEN {Ok(S, a)}
     ELSE IF ~S.st[n].kn THEN pe \cup ok
     ELSE IF S.st[n].cc # 0 THEN pe ELSE ok
DoSetEof(S, a) ==
  LET re == ResE(S, a[1], "ex")
      n == Num(S, a[1])
      es == re \cup ValE(a[2], {"error", "eof_code", "reset"}, "eof_action") \cup (IF re = {} /\ IsOut(S, n) THEN {PE("modify", "stream", a[1])} ELSE {})
  IN IF es # {} THEN Errs(S, es) ELSE {Ok([S EXCEPT !.st[n].ea = a[2][2]], a)}
DoSetBuf(S, a) ==
  LET es == ResE(S, a[1], "ex") \cup ValE(a[2], {"none", "line", "block"}, "buffering_mode") IN
  IF es # {} THEN Errs(S, es)
  ELSE LET n == Num(S, a[1]) IN {Ok([S EXCEPT !.st[n].bf = IF S.st[n].knd = "mem" THEN "none" ELSE a[2][2]], a)}

-----------------------------------------------------------------------------
(* positions *)
IntOutE(x) == IF IsVar(x) \/ x[1] = "i" THEN {} ELSE {TE("integer", x)}
IntInE(x) == IF IsVar(x) THEN {IE} ELSE IF x[1] = "i" THEN {} ELSE {TE("integer", x)}
BinE(S, a, re) == IF re = {} /\ ~S.st[Num(S, a[1])].tx THEN {PE("access", "binary_stream", a[1])} ELSE {}
DoCount(S, a, w) ==
  LET re == ResE(S, a[1], "ex")
      es == re \cup IntOutE(a[2]) \cup (IF w = "char" THEN {} ELSE BinE(S, a, re))
  IN IF es # {} THEN Errs(S, es)
     ELSE LET n == Num(S, a[1]) r == S.st[n] IN Bind(S, a, Cnt(S, n, IF w = "char" THEN r.cc ELSE IF w = "line" THEN r.lc ELSE r.lp))
DoLineCol(S, a) ==
  LET re == ResE(S, a[1], "ex")
      rest == re \cup IntOutE(a[2]) \cup BinE(S, a, re)
      es == rest \cup IntOutE(a[3])
  IN IF es # {} THEN Errs(S, es) \cup (   \* a line that does not match may fail before the column is looked at
         IF rest = {} /\ ~IsVar(a[2]) THEN (LET n == Num(S, a[1]) IN IF MayFail(a[2], Cnt(S, n, S.st[n].lc + 1)) THEN {Fail(S)} ELSE {}) ELSE {})
     ELSE LET n == Num(S, a[1]) r == S.st[n] l == Cnt(S, n, r.lc + 1) c == Cnt(S, n, r.lp + 1)
              v(x, w) == IF IsVar(x) THEN w ELSE x IN
          (IF Uni(a[2], l) /\ Uni(a[3], c) THEN {Ok(S, <<a[1], v(a[2], l), v(a[3], c)>>)} ELSE {})
          \cup (IF MayFail(a[2], l) \/ MayFail(a[3], c) THEN {Fail(S)} ELSE {})
RepE(S, a, re) == IF re = {} /\ ~S.st[Num(S, a[1])].rp THEN {PE("reposition", "stream", a[1])} ELSE {}
DoPos(S, a) ==
  LET re == ResE(S, a[1], "ex")
      es == re \cup (IF IsVar(a[2]) \/ a[2][1] = "p" THEN {} ELSE {DE("stream_position", a[2])})
  IN IF es # {} THEN Errs(S, es)
     ELSE LET p == Pos(S, Num(S, a[1])) IN
          IF IsVar(a[2]) THEN {Ok(S, <<a[1], p>>)}
          ELSE (IF FitV(p, a[2]) THEN {Ok(S, a)} ELSE {}) \cup (IF FitV(p, a[2]) /\ ANY \notin {p[i] : i \in 2..5} THEN {} ELSE {Fail(S)})
(* moving a stream whose end is written at is left open, and so is a hole  *)
Unmovable(S, n, o) == IsOut(S, n) /\ (S.st[n].md = "append" \/ o > Len(Data(S, n)))
MoveTo(S, n, o, cc, lc, lp) ==
  LET r == S.st[n] S1 == FlushS(S, n) IN
  [S1 EXCEPT !.st[n] = IF r.tx THEN Moved(@, o, cc, lc, lp) ELSE Moved(@, o, cc, r.lc, r.lp),
             !.st[n].fl = IF IsOut(S, n) THEN ANY ELSE @]
DoSetPos(S, a) ==
  LET re == ResE(S, a[1], "ex")
      es == re \cup RepE(S, a, re) \cup (IF IsVar(a[2]) THEN {IE} ELSE IF a[2][1] = "p" THEN {} ELSE {DE("stream_position", a[2])})
      n == Num(S, a[1])
      p == a[2]
  IN IF es # {} THEN Errs(S, es)
     ELSE IF p[2] < 0 THEN {Fail(S)}
     ELSE IF Unmovable(S, n, p[2]) THEN {Open(S)}
     ELSE {Ok(MoveTo(S, n, p[2], p[3], p[4], p[5]), a)}
DoSeek(S, a) ==
  LET re == ResE(S, a[1], "ex")
      n == Num(S, a[1])
      es == re \cup RepE(S, a, re) \cup (IF re = {} /\ S.st[n].tx THEN {PE("reposition", "text_stream", a[1])} ELSE {})
            \cup AtomE(a[2]) \cup (IF AtomE(a[2]) = {} /\ a[2] \notin {At("bof"), At("current"), At("eof")} THEN {DE("stream_seek_method", a[2])} ELSE {})
            \cup IntInE(a[3]) \cup IntOutE(a[4])
  IN IF es # {} THEN Errs(S, es)
     ELSE LET o == a[3][2] + (IF a[2] = At("bof") THEN 0 ELSE IF a[2] = At("eof") THEN Len(Data(S, n)) ELSE Off(S, n)) IN
          IF o < 0 THEN {Fail(S)}
          ELSE IF Unmovable(S, n, o) THEN {Open(S)}
          ELSE Bind(MoveTo(S, n, o, o, 0, 0), a, IntV(o))
RECURSIVE Walk(_, _, _, _, _)
Walk(d, i, lc, lp, goal) ==    \* number of characters before line goal[1], column goal[2] (-1: no such place)
  IF lc = goal[1] /\ lp = goal[2] THEN i
  ELSE IF i >= Len(d) \/ lc > goal[1] THEN -1
  ELSE IF d[i + 1] = 10 THEN Walk(d, i + 1, lc + 1, 0, goal) ELSE Walk(d, i + 1, lc, lp + 1, goal)
DoSetLC(S, a) ==
  LET re == ResE(S, a[1], "ex")
      n == Num(S, a[1])
      es == re \cup RepE(S, a, re) \cup (IF re = {} /\ ~S.st[n].tx THEN {PE("reposition", "binary_stream", a[1])} ELSE {}) \cup IntInE(a[2]) \cup IntInE(a[3])
  IN IF es # {} THEN Errs(S, es)
     ELSE IF IsOut(S, n) \/ S.st[n].mir # {} THEN {Open(S)}
     ELSE LET i == Walk(Data(S, n), 0, 0, 0, <<a[2][2] - 1, a[3][2] - 1>>) IN
          IF i < 0 THEN {Fail(S)} ELSE {Ok(MoveTo(S, n, i, i, a[2][2] - 1, a[3][2] - 1), a)}

-----------------------------------------------------------------------------
(* DEC-10 input/output *)
Known(S, f, io) ==   \* the stream a DEC-10 name stands for (-1: none)
  IF f = At("user") THEN IF io = "in" THEN 0 ELSE 1
  ELSE IF f = At("user_input") /\ io = "in" THEN 0
  ELSE IF f = At("user_output") /\ io = "out" THEN 1
  ELSE IF f[1] = "st" THEN IF f[2] \in DOMAIN S.st /\ (IsOut(S, f[2]) <=> io = "out") THEN f[2] ELSE -1
  ELSE LET c == {i \in 1..Len(S.dec) : S.dec[i][1] = f[2] /\ S.dec[i][3] = io /\ S.dec[i][2] \in DOMAIN S.st
                                      /\ S.st[S.dec[i][2]].f = f[2] /\ (IsOut(S, S.dec[i][2]) <=> io = "out")} IN
       IF c = {} THEN -1 ELSE S.dec[Max(c)][2]
DoSee(S, a, md, got) ==
  LET f == a[1] io == IF md = "read" THEN "in" ELSE "out" al == IF md = "read" THEN "current_input" ELSE "current_output" IN
  IF IsVar(f) THEN Errs(S, {IE})
  ELSE IF (IsAtom(f) \/ f[1] = "st") /\ Known(S, f, io) # -1 THEN {Ok([S EXCEPT !.al[al] = Known(S, f, io)], a)}
  ELSE IF FileE(S, f, md) # {} THEN Errs(S, FileE(S, f, md))
  ELSE IF got \in DOMAIN S.st THEN {}
  ELSE LET S1 == AddFile(S, f[2], md, <<>>, got) IN
       {Ok([S1 EXCEPT !.al[al] = got, !.dec = Append(@, <<f[2], got, io>>)], a)}
DoSeeing(S, a, io) ==
  LET n == IF io = "in" THEN InOf(S) ELSE OutOf(S)
      es == {i \in 1..Len(S.dec) : S.dec[i][2] = n /\ S.dec[i][3] = io /\ Known(S, At(S.dec[i][1]), io) = n}
      v == IF n = (IF io = "in" THEN 0 ELSE 1) THEN At("user") ELSE IF es # {} THEN At(S.dec[Max(es)][1]) ELSE St(n)
  IN IF IsVar(a[1]) THEN {Ok(S, <<v>>)}
     ELSE IF a[1] = v \/ (v = At("user") /\ a[1] = At(IF io = "in" THEN "user_input" ELSE "user_output")) THEN {Ok(S, a)}
     ELSE IF a[1][1] = "st" THEN {Ok(S, a), Fail(S)} ELSE {Fail(S)}
DoSeen(S, n) == IF S.st[n].knd = "mem" THEN Errs(S, {SE("needs_special_close")}) ELSE {Ok(x, <<>>) : x \in CloseN(S, n)}
RECURSIVE SkipTo(_, _, _)
SkipTo(S, n, c) ==       \* [c, s] of the first character that satisfies c, or of the end of file
  LET g == Getc(S, n) IN IF g.c = EOF \/ c = g.c \/ (c = -2 /\ g.c > 32) THEN g ELSE SkipTo(g.s, n, c)
DoGet(S, a) ==
  LET n == InOf(S) es == InArgE("code", a[1]) \cup TypeE(S, n, "code", "input", CurIn) \cup PastE(S, n, CurIn) IN
  IF es # {} THEN Errs(S, es)
  ELSE LET g == SkipTo(S, n, -2) IN Bind(g.s, a, IntV(g.c))
DoTab(S, a) ==
  LET n == OutOf(S) IN
  IF a[1][1] # "i" THEN Errs(S, IF IsVar(a[1]) THEN {IE} ELSE {<<"any">>})
  ELSE IF a[1][2] <= 0 THEN {Ok(S, a)}
  ELSE IF TypeE(S, n, "char", "output", CurOut) # {} THEN Errs(S, TypeE(S, n, "char", "output", CurOut))
  ELSE {Ok(PutAll(S, n, [i \in 1..a[1][2] |-> 32]), a)}

-----------------------------------------------------------------------------
(* a call: predicate p, arguments a; got: number of the stream it returned *)
Calls(S, p, a, got) ==
  CASE p = "get_char" -> DoRead(S, a, "char", FALSE)
    [] p = "get_code" \/ p = "get0" -> DoRead(S, a, "code", FALSE)
    [] p = "get_byte" -> DoRead(S, a, "byte", FALSE)
    [] p = "peek_char" -> DoRead(S, a, "char", TRUE)
    [] p = "peek_code" -> DoRead(S, a, "code", TRUE)
    [] p = "peek_byte" -> DoRead(S, a, "byte", TRUE)
    [] p = "unget_char" -> DoUnget(S, a, "char")
    [] p = "unget_code" -> DoUnget(S, a, "code")
    [] p = "unget_byte" -> DoUnget(S, a, "byte")
    [] p = "put_char" -> DoPut(S, a, "char")
    [] p = "put_code" \/ p = "put" -> DoPut(S, a, "code")
    [] p = "put_byte" -> DoPut(S, a, "byte")
    [] p = "nl" -> DoText(S, a, 0, <<10>>)
    [] p = "write" -> DoText(S, a, 1, Last(a)[2])
    [] p = "flush_output" -> DoFlush(S, a)
    [] p = "at_end_of_stream" -> DoEos(S, a)
    [] p = "open" -> DoOpen(S, a, got)
    [] p = "close" -> DoClose(S, a)
    [] p \in {"open_input_atom_stream", "open_input_chars_stream", "open_input_codes_stream"} -> DoOpenTerm(S, a, FALSE, got)
    [] p \in {"open_output_atom_stream", "open_output_chars_stream", "open_output_codes_stream"} -> DoOpenTerm(S, a, TRUE, got)
    [] p \in {"close_input_atom_stream", "close_input_chars_stream", "close_input_codes_stream"} -> DoCloseTerm(S, a, FALSE)
    [] p \in {"close_output_atom_stream", "close_output_chars_stream", "close_output_codes_stream"} -> DoCloseTerm(S, a, TRUE)
    [] p = "current_input" -> DoCur(S, a, InOf(S))
    [] p = "current_output" -> DoCur(S, a, OutOf(S))
    [] p = "set_input" -> DoSet(S, a, "current_input", "in")
    [] p = "set_output" -> DoSet(S, a, "current_output", "out")
    [] p = "add_stream_alias" -> DoAddAlias(S, a, FALSE)
    [] p = "set_stream_alias" -> DoAddAlias(S, a, TRUE)
    [] p = "add_stream_mirror" -> DoMirror(S, a, TRUE)
    [] p = "remove_stream_mirror" -> DoMirror(S, a, FALSE)
    [] p = "set_stream_type" -> DoSetType(S, a)
    [] p = "set_stream_eof_action" -> DoSetEof(S, a)
    [] p = "set_stream_buffering" -> DoSetBuf(S, a)
    [] p = "character_count" -> DoCount(S, a, "char")
    [] p = "line_count" -> DoCount(S, a, "line")
    [] p = "line_position" -> DoCount(S, a, "pos")
    [] p = "stream_line_column" -> DoLineCol(S, a)
    [] p = "set_stream_line_column" -> DoSetLC(S, a)
    [] p = "stream_position" -> DoPos(S, a)
    [] p = "set_stream_position" -> DoSetPos(S, a)
    [] p = "seek" -> DoSeek(S, a)
    [] p = "see" -> DoSee(S, a, "read", got)
    [] p = "tell" -> DoSee(S, a, "write", got)
    [] p = "append" -> DoSee(S, a, "append", got)
    [] p = "seeing" -> DoSeeing(S, a, "in")
    [] p = "telling" -> DoSeeing(S, a, "out")
    [] p = "seen" -> DoSeen(S, InOf(S))
    [] p = "told" -> DoSeen(S, OutOf(S))
    [] p = "get" -> DoGet(S, a)
    [] p = "tab" -> DoTab(S, a)

-----------------------------------------------------------------------------
(* enumerations: the rows that answer a query, and the state after it.     *)
(* Asking for the end of a stream looks at its next character              *)
Want(x) == ~IsVar(x)
Props(S, n, pre, post, eos) ==
  LET r == S.st[n] p == Pos(pre, n) q == Pos(post, n) IN
  {Opt("file_name", At(r.f)), Opt("mode", At(r.md)), At(IF IsOut(S, n) THEN "output" ELSE "input"), Opt("type", At(IF r.tx THEN "text" ELSE "binary")),
   Opt("reposition", At(IF r.rp THEN "true" ELSE "false")), Opt("eof_action", At(r.ea)), Opt("buffering", At(r.bf)), Opt("end_of_stream", At(eos)),
   Opt("position", IF p = q THEN p ELSE <<"p", ANY, ANY, ANY, ANY>>)}
  \cup {Opt("alias", At(x)) : x \in {y \in DOMAIN S.al : S.al[y] = n}}
  \cup {Opt("mirror", St(m)) : m \in r.mir}
  \cup (IF r.knd = "mem" THEN {} ELSE {Opt("file_no", AnyV)})
PropNames == {"file_name", "mode", "alias", "mirror", "type", "file_no", "reposition", "eof_action", "buffering", "end_of_stream", "position"}
PropE(x) == IF IsVar(x) \/ x \in {At("input"), At("output")} \/ (x[1] = "o" /\ x[2] \in PropNames) THEN {} ELSE {DE("stream_property", x)}
SOk(x, n) == IsVar(x) \/ x = St(n)
PropOk(x, w) == IsVar(x) \/ (IF x[1] = "o" THEN w[1] = "o" /\ x[2] = w[2] /\ Uni(x[3], w[3]) ELSE x = w)
RowsOf(S, p, a) ==     \* [rows, s]
  IF p = "current_stream" THEN [rows |-> {<<St(n)>> : n \in {m \in DOMAIN S.st : SOk(a[1], m)}}, s |-> S]
  ELSE IF p = "current_alias" THEN
    [rows |-> {<<St(S.al[x]), At(x)>> : x \in {y \in DOMAIN S.al : SOk(a[1], S.al[y]) /\ (IsVar(a[2]) \/ a[2] = At(y))}}, s |-> S]
  ELSE IF p = "current_mirror" THEN
    [rows |-> UNION {{<<St(n), St(m)>> : m \in {y \in S.st[n].mir : SOk(a[2], y)}} : n \in {y \in DOMAIN S.st : SOk(a[1], y)}}, s |-> S]
  ELSE \* stream_property
    LET ns == {n \in DOMAIN S.st : SOk(a[1], n)}
        look == IsVar(a[2]) \/ (a[2][1] = "o" /\ a[2][2] = "end_of_stream")
        ends == FoldLeft(LAMBDA acc, n : LET x == EndOf(acc.s, n) IN [s |-> x[2], e |-> (n :> x[1]) @@ acc.e], [s |-> S, e |-> [n \in {} |-> ""]],
                         IF look THEN SetToSortSeq(ns, LAMBDA x, y : x < y) ELSE <<>>)
        eos(n) == IF look THEN ends.e[n] ELSE "not"
    IN [rows |-> UNION {{<<St(n), w>> : w \in {y \in Props(S, n, S, ends.s, eos(n)) : PropOk(a[2], y)}} : n \in ns}, s |-> ends.s]
RowsE(p, a) ==
  StreamArgE(a[1]) \cup (IF p = "stream_property" THEN PropE(a[2]) ELSE IF p = "current_mirror" THEN StreamArgE(a[2])
                         ELSE IF p = "current_alias" /\ ~(IsVar(a[2]) \/ IsAtom(a[2])) THEN {TE("atom", a[2])} ELSE {})
RowsFit(want, got) ==
  /\ Len(got) = Cardinality(want)
  /\ \A w \in want : \E i \in 1..Len(got) : FitA(w, got[i])
  /\ \A i \in 1..Len(got) : \E w \in want : FitA(w, got[i])
=============================================================================
