-------------------------------- MODULE Flags --------------------------------
(* Prolog flags, the character conversion table and the table of            *)
(* predicates: what each call changes, and what may be observed of them.    *)
(* Terms are those of Syntax.tla.  A predicate is <<name, arity>> (name: a   *)
(* sequence of codes); its entry: [dyn, pub, mf, file, line, cls], with cls  *)
(* the sequence of the numbers that its facts carry.                        *)
EXTENDS Syntax

Atoms(strs) == {At(Codes(x)) : x \in strs}
OnOff == Atoms({"on", "off"})
Quotes == Atoms({"codes", "chars", "atom", "codes_no_escape", "chars_no_escape", "atom_no_escape"})
Actions == Atoms({"error", "warning", "fail"})
A_(str) == At(Codes(str))
(* changeable flags: name -> [val: values, init] *)
RwTab == <<
  <<"char_conversion", OnOff, "off">>, <<"singleton_warning", OnOff, "on">>, <<"suspicious_warning", OnOff, "on">>,
  <<"multifile_warning", OnOff, "on">>, <<"show_banner", OnOff, "on">>,
  <<"show_information", Atoms({"silent", "normal", "informational"}), "normal">>, <<"strict_iso", OnOff, "on">>, <<"debug", OnOff, "off">>,
  <<"double_quotes", Quotes, "codes">>, <<"back_quotes", Quotes, "atom_no_escape">>,
  <<"unknown", Actions, "error">>, <<"syntax_error", Actions, "error">>, <<"os_error", Actions, "error">> >>
RoTab == <<
  <<"prolog_name", "a">>, <<"prolog_version", "a">>, <<"prolog_date", "a">>, <<"prolog_copyright", "a">>, <<"dialect", "a">>, <<"version", "n">>,
  <<"version_data", "s">>, <<"bounded", "a">>, <<"max_integer", "n">>, <<"min_integer", "n">>, <<"integer_rounding_function", "a">>,
  <<"max_arity", "n">>, <<"max_atom", "n">>, <<"max_unget", "n">>, <<"home", "a">>, <<"host_os", "a">>, <<"host_vendor", "a">>, <<"host_cpu", "a">>,
  <<"host", "a">>, <<"arch", "a">>, <<"address_bits", "n">>, <<"unix", "a">>, <<"compiled_at", "a">>, <<"c_cc", "a">>, <<"c_cc_version_data", "s">>,
  <<"c_cflags", "a">>, <<"c_ldflags", "a">>, <<"argv", "s">> >>
(* values that do not depend on the machine *)
RoKnown == [x \in {"bounded", "max_arity", "max_integer", "min_integer", "dialect", "integer_rounding_function"} |->
  CASE x = "bounded" -> A_("true") [] x = "max_arity" -> <<"n", 0, Codes("255")>> [] x = "max_integer" -> <<"n", 0, MaxDig>>
    [] x = "min_integer" -> <<"n", 1, MinDig>> [] x = "dialect" -> A_("gprolog") [] OTHER -> A_("toward_zero")]
Rw == [n \in {Codes(RwTab[i][1]) : i \in 1..Len(RwTab)} |-> LET i == CHOOSE i \in 1..Len(RwTab) : Codes(RwTab[i][1]) = n IN RwTab[i]]
Ro == [n \in {Codes(RoTab[i][1]) : i \in 1..Len(RoTab)} |-> LET i == CHOOSE i \in 1..Len(RoTab) : Codes(RoTab[i][1]) = n IN RoTab[i]]
InitFv == [n \in DOMAIN Rw |-> A_(Rw[n][3])]

Err2(k, a, b, x) == St(Codes(k), <<A_(a), A_(b), x>>)
ExE(k, x) == St(Codes("existence_error"), <<A_(k), x>>)
FlagErrs(f) == IF f[1] = "v" THEN {InstE} ELSE IF f[1] # "a" THEN {TypeE("atom", f)} ELSE IF f[2] \notin DOMAIN Rw \cup DOMAIN Ro THEN {DomE("prolog_flag", f)} ELSE {}
(* set_prolog_flag/2: the errors; debug cannot be switched on in a program  *)
(* without the debugger                                                     *)
SetErrs(f, v) ==
  LET e == FlagErrs(f) IN
  IF e # {} THEN e \cup (IF v[1] = "v" THEN {InstE} ELSE {})
  ELSE IF v[1] = "v" THEN {InstE}
  ELSE IF f[2] \in DOMAIN Rw THEN IF v \in Rw[f[2]][2] THEN {} ELSE {DomE("flag_value", St(Codes("+"), <<f, v>>))}
  ELSE LET k == Ro[f[2]][2] IN
       (IF v[1] # k \/ f[2] \in {Codes("bounded"), Codes("unix"), Codes("integer_rounding_function")} \/ k = "s" THEN {DomE("flag_value", St(Codes("+"), <<f, v>>))} ELSE {})
       \cup (IF v[1] = k \/ k = "s" THEN {Err2("permission_error", "modify", "flag", f)} ELSE {})
FlagRows(fv, f, v) == {<<n, fv[n]>> : n \in {m \in DOMAIN fv : (f[1] = "v" \/ f[2] = m) /\ (v[1] = "v" \/ v = fv[m])}}

IsChar(x) == x[1] = "a" /\ Len(x[2]) = 1
ConvErrs(a, b) == UNION {IF x[1] = "v" THEN {InstE} ELSE IF IsChar(x) THEN {} ELSE {TypeE("character", x)} : x \in {a, b}}
ConvqErrs(a, b) == UNION {IF x[1] = "v" \/ IsChar(x) THEN {} ELSE {TypeE("character", x)} : x \in {a, b}}
Convert(cm, a, b) == IF a = b THEN [c \in DOMAIN cm \ {a} |-> cm[c]] ELSE [c \in DOMAIN cm \cup {a} |-> IF c = a THEN b ELSE cm[c]]
ConvRows(cm, a, b) == {<<c, cm[c]>> : c \in {c \in DOMAIN cm : (a[1] = "v" \/ a[2] = <<c>>) /\ (b[1] = "v" \/ b[2] = <<cm[c]>>)}}

(* ---------------------------------------------------------------------- *)
(* Predicates                                                               *)
PI(p) == St(Codes("/"), <<At(p[1]), <<"n", 0, Dec(p[2])>>>>)
NewPred == [dyn |-> TRUE, pub |-> TRUE, mf |-> FALSE, file |-> <<>>, line |-> 0, cls |-> <<>>]
With(pr, p, e) == [q \in DOMAIN pr \cup {p} |-> IF q = p THEN e ELSE pr[q]]
Without(pr, p) == [q \in DOMAIN pr \ {p} |-> pr[q]]
FailR == A_("fail")
PermM(act, type, p) == Err2("permission_error", act, type, PI(p))
(* one change of the database: the possible <<result, table>> *)
Db(pr, op, p, v) ==
  LET def == p \in DOMAIN pr
      e == IF def THEN pr[p] ELSE NewPred
      i == IF \E i \in 1..Len(e.cls) : e.cls[i] = v THEN CHOOSE i \in 1..Len(e.cls) : e.cls[i] = v /\ \A j \in 1..i - 1 : e.cls[j] # v ELSE 0
      stat == def /\ ~e.dyn
  IN
  IF op \in {"assertz", "asserta"} THEN
    IF stat THEN {<<PermM("modify", "static_procedure", p), pr>>}
    ELSE {<<OK, With(pr, p, [e EXCEPT !.cls = IF op = "assertz" THEN Append(@, v) ELSE <<v>> \o @])>>}
  ELSE IF op = "retract" THEN
    IF stat THEN {<<PermM("access", "private_procedure", p), pr>>, <<PermM("modify", "static_procedure", p), pr>>}
    ELSE IF i = 0 THEN {<<FailR, pr>>} ELSE {<<OK, With(pr, p, [e EXCEPT !.cls = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))])>>}
  ELSE IF op = "retractall" THEN        \* v = -1: every clause
    IF stat THEN {<<PermM("access", "private_procedure", p), pr>>, <<PermM("modify", "static_procedure", p), pr>>}
    ELSE IF ~def THEN {<<OK, pr>>}
    ELSE {<<OK, With(pr, p, [e EXCEPT !.cls = SelectSeq(@, LAMBDA x : v # -1 /\ x # v)])>>}
  ELSE IF op = "abolish" THEN
    IF stat THEN {<<PermM("modify", "static_procedure", p), pr>>} ELSE {<<OK, Without(pr, p)>>}
  ELSE {}
(* loading a file: ds are its predicates with their entries *)
Load(pr, ds) ==
  FoldLeft(LAMBDA t, d : With(t, d.p, IF d.e.mf /\ d.p \in DOMAIN t /\ t[d.p].mf THEN [t[d.p] EXCEPT !.cls = @ \o d.e.cls] ELSE d.e), pr, ds)

(* current_predicate/1: the errors; built-in predicates are found when      *)
(* strict_iso is off                                                        *)
CurPredErrs(pi) ==
  IF pi[1] = "v" THEN {}
  ELSE IF pi[1] # "s" \/ pi[2] # Codes("/") \/ Len(pi[3]) # 2 THEN {TypeE("predicate_indicator", pi)}
  ELSE LET n == pi[3][1]  a == pi[3][2] IN
       (IF n[1] \in {"v", "a"} THEN {} ELSE {TypeE("atom", n)})
       \cup (IF a[1] = "v" THEN {} ELSE IF a[1] # "n" THEN {TypeE("integer", a)}
             ELSE IF a[2] = 1 THEN {DomE("not_less_than_zero", a)}
             ELSE IF DigLeq(a[3], Codes("255")) THEN {} ELSE {Err1("representation_error", <<A_("max_arity")>>)})
Bips == {<<Codes("append"), 3>>, <<Codes("write"), 1>>, <<Codes("fd_max"), 2>>, <<COMMA, 2>>, <<Codes("call"), 1>>, <<Codes("call"), 2>>}
BipProps(p) == Atoms({"static", "private", "monofile", "built_in", "native_code"})
  \cup (IF p[1] = Codes("fd_max") THEN Atoms({"built_in_fd"}) ELSE {})
  \cup (IF p[1] = COMMA \/ p = <<Codes("call"), 1>> THEN Atoms({"control_construct"}) ELSE {})
Props(e) == {IF e.dyn THEN A_("dynamic") ELSE A_("static"), IF e.pub THEN A_("public") ELSE A_("private"), IF e.mf THEN A_("multifile") ELSE A_("monofile"), A_("user")}
  \cup (IF e.file = <<>> \/ e.mf THEN {} ELSE {St(Codes("prolog_file"), <<At(e.file)>>), St(Codes("prolog_line"), <<<<"n", 0, Dec(e.line)>>>>)})
KnownProps == {Codes(x) : x \in {"static", "dynamic", "private", "public", "monofile", "multifile", "user", "built_in", "built_in_fd", "control_construct", "native_code"}}
PosProps == {Codes(x) : x \in {"prolog_file", "prolog_line", "meta_predicate"}}
PropErrs(h, q) ==
  (IF h[1] \in {"v", "a", "s"} THEN {} ELSE {TypeE("callable", h)})
  \cup (IF q[1] = "v" \/ (q[1] = "a" /\ q[2] \in KnownProps) \/ (q[1] = "s" /\ q[2] \in PosProps /\ Len(q[3]) = 1) THEN {} ELSE {DomE("predicate_property", q)})
=============================================================================
