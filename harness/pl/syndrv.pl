% Runs one history of operator, reader and writer commands and prints what each did, one JSON line per event.
% Terms are printed by this file's own dump (numbers digit by digit, atoms as code lists), not by the writer under test.
:- initialization(main).

main :-
	environ('TESTFILE', File), environ('TESTMODE', How),
	open(File, read, S), read(S, Cs), close(S),
	( How = stream -> true ; true ),
	g_assign('$how', How),
	cmds(Cs, 1),
	put_string("{\"done\":1}\n"), flush_output, halt.

cmds([], _).
cmds([C|Cs], N) :- ( cmd(C, N), fail ; true ), N1 is N + 1, cmds(Cs, N1).

cmd(op(P, T, O), N) :- result(N, op(P, T, O)), table(N).
cmd(opq(P, T, O), N) :- result(N, op(P, T, O)).
cmd(cop(P, T, O), N) :-
	catch((findall(r(P, T, O), current_op(P, T, O), L), ev(N, sols, L)), E, (ball(E, B), ev(N, err, B))).
cmd(scan(P, T, O, Ops), N) :-
	g_assign('$ops', Ops),
	(   current_op(P, T, O), ev(N, row, r(P, T, O)), g_read('$ops', [X|R]), g_assign('$ops', R), result(N, X), fail
	;   true
	),
	table(N).
cmd(flag(F, V), N) :- result(N, set_prolog_flag(F, V)).
cmd(conv(A, B), N) :- result(N, char_conversion(A, B)).
cmd(flagq(F, V), N) :-
	catch((findall(F-V, current_prolog_flag(F, V), L), ev(N, sols, L)), E, (ball(E, B), ev(N, err, B))).
cmd(convq(F, V), N) :-
	catch((findall(F-V, current_char_conversion(F, V), L), ev(N, sols, L)), E, (ball(E, B), ev(N, err, B))).
cmd(read(Codes, Max), N) :-
	open_text(Codes, S), reads(S, N, Max), close_text(S).
cmd(tok(Codes, Max), N) :-
	open_text(Codes, S), toks(S, N, Max), close_text(S).
cmd(wr(Kind, T), N) :-
	( catch((wr(Kind, T, Codes), R = ok), E, (ball(E, R0), R = err(R0))) -> true ; R = fail ),
	(   R == ok ->
	    ( Kind = pc -> Text = Codes ; Kind = lst -> Text = Codes ; append(Codes, " .", Text) ),
	    ev(N, text, Codes), open_input_codes_stream(Text, S), ( catch((read(S, B), R1 = got(B)), E1, (ball(E1, R2), R1 = err(R2))) -> true ; R1 = fail ),
	    close_input_codes_stream(S), ev(N, back, R1)
	;   ev(N, bad, R)
	).

close_text(S) :- g_read('$how', stream), !, close_input_codes_stream(S).
close_text(S) :- close(S).
open_text(Codes, S) :- g_read('$how', stream), !, open_input_codes_stream(Codes, S).
open_text(Codes, S) :-
	environ('TESTFILE', F0), atom_concat(F0, '.txt', F),
	open(F, write, W), put_string_s(Codes, W), close(W), open(F, read, S).

put_string_s([], _).
put_string_s([C|L], S) :- put_code(S, C), put_string_s(L, S).

reads(_, _, 0) :- !.
reads(S, N, Max) :-
	catch((read_term(S, T, [variables(Vs), variable_names(VN), singletons(SN)]) -> R = got(T, Vs, VN, SN) ; R = fail), E, (ball(E, B), R = err(B))),
	ev(N, read, R),
	(   R = got(T, _, _, _), T == end_of_file -> true
	;   Max1 is Max - 1, reads(S, N, Max1)
	).
toks(_, _, 0) :- !.
toks(S, N, Max) :-
	catch((read_token(S, T) -> R = got(T) ; R = fail), E, (ball(E, B), R = err(B))),
	ev(N, tok, R),
	(   R == got(punct(end_of_file)) -> true
	;   R = err(_) -> true
	;   Max1 is Max - 1, toks(S, N, Max1)
	).

wr(writeq, T, C) :- writeq_to_codes(C, T).
wr(writeqs, T, C) :- open_output_codes_stream(S), writeq(S, T), close_output_codes_stream(S, C).
wr(canon, T, C) :- write_canonical_to_codes(C, T).
wr(canons, T, C) :- open_output_codes_stream(S), write_canonical(S, T), close_output_codes_stream(S, C).
wr(print, T, C) :- print_to_codes(C, T).
wr(opts(O), T, C) :- write_term_to_codes(C, T, O).
wr(fmt, T, C) :- format_to_codes(C, "~q", [T]).
wr(pc, T, C) :- open_output_codes_stream(S), portray_clause(S, T), close_output_codes_stream(S, C).

result(N, G) :- catch((call(G) -> R = ok ; R = fail), E, (ball(E, B), R = err(B))), ev(N, res, R).
table(N) :- findall(r(P, T, O), current_op(P, T, O), L), ev(N, table, L).

ball(E, B) :- nonvar(E), E = error(F, _), !, B = F.
ball(E, ball(E)).

ev(N, K, T) :-
	put_string("{\"n\":"), int(N), put_string(",\"k\":\""), atom_codes(K, L), put_string(L), put_string("\",\"v\":"),
	\+ \+ jt(T), put_string("}\n"), flush_output.

jt(T) :- copy_term(T, T1), number_vars(T1, 1, _), je(T1).

number_vars(T, N, N1) :- var(T), !, T = '$ v'(N), N1 is N + 1.
number_vars('$ v'(_), N, N) :- !.
number_vars(T, N, N1) :- compound(T), !, functor(T, _, A), number_args(1, A, T, N, N1).
number_vars(_, N, N).
number_args(I, A, _, N, N) :- I > A, !.
number_args(I, A, T, N, N2) :- arg(I, T, X), number_vars(X, N, N1), I1 is I + 1, number_args(I1, A, T, N1, N2).

je('$ v'(N)) :- !, put_string("[\"v\","), int(N), put_char(']').
je(T) :- atom(T), !, put_string("[\"a\","), jname(T), put_char(']').
je(T) :- integer(T), !, put_string("[\"n\",\""), int(T), put_string("\"]").
je(T) :- float(T), !, put_string("[\"f\",\""), fl(T), put_string("\"]").
je(T) :- T = [_|_], !, put_string("[\"l\",["), jlist(T, Tl), put_string("],"), je(Tl), put_char(']').
je(T) :- functor(T, F, A), put_string("[\"s\","), jname(F), put_string(",["), jargs(1, A, T), put_string("]]").
jlist([X|T], Tl) :- je(X), ( nonvar(T), T = [_|_] -> put_char(','), jlist(T, Tl) ; Tl = T ).
jargs(I, A, _) :- I > A, !.
jargs(I, A, T) :- (I > 1 -> put_char(',') ; true), arg(I, T, X), je(X), I1 is I + 1, jargs(I1, A, T).
jname(A) :- atom_codes(A, L), put_char('['), jcodes(L), put_char(']').
jcodes([]).
jcodes([C]) :- !, int(C).
jcodes([C|L]) :- int(C), put_char(','), jcodes(L).

int(N) :- N < 0, !, put_char('-'), nint(N).
int(N) :- N < 10, !, C is N + 0'0, put_code(C).
int(N) :- Q is N // 10, int(Q), C is N rem 10 + 0'0, put_code(C).
nint(N) :- N > -10, !, C is 0'0 - N, put_code(C).
nint(N) :- Q is N // 10, nint(Q), C is 0'0 - (N rem 10), put_code(C).
% mantissa and power of two, exactly
fl(F) :- F =:= 0.0, !, put_string("0 0").
fl(F) :- abs(F) >= 4503599627370496.0, !, up(F, 0).
fl(F) :- down(F, 0).
up(F, E) :- abs(F) >= 9007199254740992.0, !, F1 is F / 2.0, E1 is E + 1, up(F1, E1).
up(F, E) :- M is truncate(F), int(M), put_char(' '), int(E).
down(F, E) :- abs(F) < 4503599627370496.0, !, F1 is F * 2.0, E1 is E - 1, down(F1, E1).
down(F, E) :- M is truncate(F), int(M), put_char(' '), int(E).

put_string([]).
put_string([C|L]) :- put_code(C), put_string(L).
