% Runs one history of flag settings, character conversions, reads, definitions, calls and queries about predicates,
% and prints what each did, one JSON line per event.  Warnings that the system writes come before the line of their event.
:- initialization(main).

main :-
	environ('TESTFILE', File), environ('TESTMODE', How),
	open(File, read, S), read(S, Cs), close(S),
	g_assign('$how', How),
	cmds(Cs, 1),
	put_string("{\"done\":1}\n"), flush_output, halt.

uses(X, Y) :- fd_max(X, Y), call(X, Y), write(X), append(X, Y, _).

cmds([], _).
cmds([C|Cs], N) :- ( cmd(C, N), fail ; true ), N1 is N + 1, cmds(Cs, N1).

cmd(g(G), N) :- result(N, G).
cmd(q(G, T), N) :- catch((findall(T, G, L), ev(N, sols, L)), E, (ball(E, B), ev(N, err, B))).
cmd(scan(G, T, Ops), N) :-
	g_assign('$ops', Ops),
	(   call(G), ev(N, row, T), g_read('$ops', [X|R]), g_assign('$ops', R), result(N, X), fail
	;   true
	),
	ev(N, end, end).
cmd(one(G, X), N) :- one(N, G, X).
cmd(load(K, Codes), N) :-
	environ('TESTFILE', F0), number_atom(K, A), atom_concat(F0, '.', F1), atom_concat(F1, A, F2), atom_concat(F2, '.pl', F),
	open(F, write, W), put_string_s(Codes, W), close(W),
	result(N, consult(F)), unlink(F).
cmd(body(H, X), N) :-
	assertz(('$run'(X) :- H)),
	catch((findall(X, '$run'(X), L), R = sols(L)), E, (ball(E, B), R = err(B))),
	retractall('$run'(_)),
	( R = sols(L1) -> ev(N, sols, L1) ; R = err(B1), ev(N, err, B1) ).
cmd(read(Codes, Max), N) :-
	open_text(Codes, S), reads(S, N, Max), close_text(S).
cmd(tok(Codes, Max), N) :-
	open_text(Codes, S), toks(S, N, Max), close_text(S).
cmd(rd1(Codes), N) :-
	open_text(Codes, S), one(N, read(S, X), X), close_text(S).

one(N, G, X) :- ( catch((call(G), R = got(X)), E, (ball(E, B), R = err(B))) -> true ; R = fail ), ev(N, one, R).

pool(N, A) :- atom_codes(N, [C, _]), A =< 3, memberchk(C, [102, 107, 113, 120, 122]).
pool(append, 3).
pool(write, 1).
pool(fd_max, 2).
pool(',', 2).
pool(call, 1).
pool(call, 2).
cp(N, A) :- current_predicate(N/A), pool(N, A).
pp(F, N, A, P) :- ( var(F) -> predicate_property(F, P), functor(F, N, A), pool(N, A) ; predicate_property(F, P), functor(F, N, A) ).

close_text(S) :- g_read('$how', stream), !, close_input_codes_stream(S).
close_text(S) :- close(S).
open_text(Codes, S) :- g_read('$how', stream), !, open_input_codes_stream(Codes, S).
open_text(Codes, S) :-
	environ('TESTFILE', F0), atom_concat(F0, '.txt', F),
	open(F, write, W), put_string_s(Codes, W), close(W), open(F, read, S).

put_string_s([], _).
put_string_s([C|L], S) :- put_code(S, C), put_string_s(L, S).

reads(_, _, 0) :- !.
reads(S, N, Max) :-
	catch((read_term(S, T, [variables(Vs), variable_names(VN), singletons(SN)]) -> R = got(T, Vs, VN, SN) ; R = fail), E, (ball(E, B), R = err(B))),
	ev(N, read, R),
	(   R = got(T, _, _, _), T == end_of_file -> true
	;   Max1 is Max - 1, reads(S, N, Max1)
	).
toks(_, _, 0) :- !.
toks(S, N, Max) :-
	catch((read_token(S, T) -> R = got(T) ; R = fail), E, (ball(E, B), R = err(B))),
	ev(N, tok, R),
	(   R == got(punct(end_of_file)) -> true
	;   R = err(_) -> true
	;   Max1 is Max - 1, toks(S, N, Max1)
	).

result(N, G) :- catch((call(G) -> R = ok ; R = fail), E, (ball(E, B), R = err(B))), ev(N, res, R).

ball(E, B) :- nonvar(E), E = error(F, _), !, B = F.
ball(E, ball(E)).

ev(N, K, T) :-
	put_string("{\"n\":"), int(N), put_string(",\"k\":\""), atom_codes(K, L), put_string(L), put_string("\",\"v\":"),
	\+ \+ jt(T), put_string("}\n"), flush_output.

jt(T) :- copy_term(T, T1), number_vars(T1, 1, _), je(T1).

number_vars(T, N, N1) :- var(T), !, T = '$ v'(N), N1 is N + 1.
number_vars('$ v'(_), N, N) :- !.
number_vars(T, N, N1) :- compound(T), !, functor(T, _, A), number_args(1, A, T, N, N1).
number_vars(_, N, N).
number_args(I, A, _, N, N) :- I > A, !.
number_args(I, A, T, N, N2) :- arg(I, T, X), number_vars(X, N, N1), I1 is I + 1, number_args(I1, A, T, N1, N2).

je('$ v'(N)) :- !, put_string("[\"v\","), int(N), put_char(']').
je(T) :- atom(T), !, put_string("[\"a\","), jname(T), put_char(']').
je(T) :- integer(T), !, put_string("[\"n\",\""), int(T), put_string("\"]").
je(T) :- float(T), !, put_string("[\"f\",\""), flo_(T), put_string("\"]").
je(T) :- T = [_|_], !, put_string("[\"l\",["), jlist(T, Tl), put_string("],"), je(Tl), put_char(']').
je(T) :- functor(T, F, A), put_string("[\"s\","), jname(F), put_string(",["), jargs(1, A, T), put_string("]]").
jlist([X|T], Tl) :- je(X), ( nonvar(T), T = [_|_] -> put_char(','), jlist(T, Tl) ; Tl = T ).
jargs(I, A, _) :- I > A, !.
jargs(I, A, T) :- (I > 1 -> put_char(',') ; true), arg(I, T, X), je(X), I1 is I + 1, jargs(I1, A, T).
jname(A) :- atom_codes(A, L), put_char('['), jcodes(L), put_char(']').
jcodes([]).
jcodes([C]) :- !, int(C).
jcodes([C|L]) :- int(C), put_char(','), jcodes(L).

int(N) :- N < 0, !, put_char('-'), nint(N).
int(N) :- N < 10, !, C is N + 0'0, put_code(C).
int(N) :- Q is N // 10, int(Q), C is N rem 10 + 0'0, put_code(C).
nint(N) :- N > -10, !, C is 0'0 - N, put_code(C).
nint(N) :- Q is N // 10, nint(Q), C is 0'0 - (N rem 10), put_code(C).
% mantissa and power of two, exactly
flo_(F) :- F =:= 0.0, !, put_string("0 0").
flo_(F) :- abs(F) >= 4503599627370496.0, !, up_(F, 0).
flo_(F) :- down(F, 0).
up_(F, E) :- abs(F) >= 9007199254740992.0, !, F1 is F / 2.0, E1 is E + 1, up_(F1, E1).
up_(F, E) :- M is truncate(F), int(M), put_char(' '), int(E).
down(F, E) :- abs(F) < 4503599627370496.0, !, F1 is F * 2.0, E1 is E - 1, down(F1, E1).
down(F, E) :- M is truncate(F), int(M), put_char(' '), int(E).

put_string([]).
put_string([C|L]) :- put_code(C), put_string(L).
