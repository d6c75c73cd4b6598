% Runs one history of format/2,3 calls on one sink and prints the calls, their results and the text.
% Terms are printed by this file's own dump (numbers digit by digit, atoms as code lists), not by the writer under test.
:- initialization(main).
:- dynamic(portray/1).
:- op(700, xfx, ===>).

portray(pp(X)) :- write('<'), print(X), write('>').
portray(nl) :- nl.

main :-
	environ('TESTFILE', File),
	open(File, read, S), read(S, Cs), close(S),
	cmds(Cs, 1),
	put_string("{\"done\":1}\n"), flush_output, halt.

cmds([], _).
cmds([C|Cs], N) :- ( cmd(C, N), fail ; true ), N1 is N + 1, cmds(Cs, N1).

% one sink of each kind; the operations stop at the first that does not succeed
cmd(run(to(K), [f(_, Ctl, Args)]), N) :-
	call_ev(N, Ctl, Args),
	result(N, to(K, Codes, Ctl, Args), R),
	( R == ok -> ev(N, text, Codes) ; ev(N, notext, x) ).
cmd(run(codes, Ops), N) :-
	open_output_codes_stream(S), ops(Ops, S, N), close_output_codes_stream(S, Codes), ev(N, text, Codes).
cmd(run(file(Opts), Ops), N) :-
	environ('TESTFILE', F0), atom_concat(F0, '.txt', F),
	open(F, write, S, [alias(sink)|Opts]), ops(Ops, sink, N), close(S),
	open(F, read, I), all(I, Codes), close(I), ev(N, text, Codes).

to(codes, C, Ctl, Args) :- format_to_codes(C, Ctl, Args).
to(chars, C, Ctl, Args) :- format_to_chars(Cs, Ctl, Args), chars_codes(Cs, C).
to(atom, C, Ctl, Args) :- format_to_atom(A, Ctl, Args), atom_codes(A, C).
chars_codes([], []).
chars_codes([X|L], [C|M]) :- char_code(X, C), chars_codes(L, M).
all(S, L) :- get_code(S, C), ( C = -1 -> L = [] ; L = [C|M], all(S, M) ).

ops([], _, _).
ops([p(Codes)|L], S, N) :- !, put_string_s(Codes, S), ops(L, S, N).
ops([f(How, Ctl, Args)|L], S, N) :-
	call_ev(N, Ctl, Args),
	result(N, fmt(How, S, Ctl, Args), R),
	( R == ok -> ops(L, S, N) ; true ).
fmt(s, S, Ctl, Args) :- format(S, Ctl, Args).
fmt(c, S, Ctl, Args) :-
	current_output(O), set_output(S),
	( catch(format(Ctl, Args), E, true) -> true ; E = failed ),
	set_output(O), ( var(E) -> true ; throw(E) ).

call_ev(N, Ctl, Args) :- texts(Args, T), ev(N, call, c(Ctl, Args, T)).
texts(A, []) :- var(A), !.
texts([X|L], [t(W, Q, K, P, O)|T]) :- !,
	tx(write(X), W), tx(writeq(X), Q), tx(write_canonical(X), K), tx(print(X), P),
	( nonvar(L), L = [Y|_] -> tx(write_term(X, Y), O) ; O = none ),
	texts(L, T).
texts(_, []).
tx(G, R) :-
	current_output(O), open_output_codes_stream(S), set_output(S),
	( catch(G, E, true) -> true ; E = failed ),
	set_output(O), close_output_codes_stream(S, C),
	( var(E) -> R = C ; ball(E, B), R = err(B) ).
put_string_s([], _).
put_string_s([C|L], S) :- put_code(S, C), put_string_s(L, S).

result(N, G, R) :- ( catch((call(G), R = ok), E, (ball(E, B), R = err(B))) -> true ; R = fail ), ev(N, res, R).

ball(E, B) :- nonvar(E), E = error(F, _), !, B = F.
ball(E, ball(E)).

ev(N, K, T) :-
	put_string("{\"n\":"), int(N), put_string(",\"k\":\""), atom_codes(K, L), put_string(L), put_string("\",\"v\":"),
	\+ \+ jt(T), put_string("}\n"), flush_output.

jt(T) :- copy_term(T, T1), number_vars(T1, 1, _), je(T1).

number_vars(T, N, N1) :- var(T), !, T = '$ v'(N), N1 is N + 1.
number_vars('$ v'(_), N, N) :- !.
number_vars(T, N, N1) :- compound(T), !, functor(T, _, A), number_args(1, A, T, N, N1).
number_vars(_, N, N).
number_args(I, A, _, N, N) :- I > A, !.
number_args(I, A, T, N, N2) :- arg(I, T, X), number_vars(X, N, N1), I1 is I + 1, number_args(I1, A, T, N1, N2).

je('$ v'(N)) :- !, put_string("[\"v\","), int(N), put_char(']').
je(T) :- atom(T), !, put_string("[\"a\","), jname(T), put_char(']').
je(T) :- integer(T), !, put_string("[\"n\",\""), int(T), put_string("\"]").
je(T) :- float(T), !, put_string("[\"f\",\""), fl(T), put_string("\"]").
je(T) :- T = [_|_], !, put_string("[\"l\",["), jlist(T, Tl), put_string("],"), je(Tl), put_char(']').
je(T) :- functor(T, F, A), put_string("[\"s\","), jname(F), put_string(",["), jargs(1, A, T), put_string("]]").
jlist([X|T], Tl) :- je(X), ( nonvar(T), T = [_|_] -> put_char(','), jlist(T, Tl) ; Tl = T ).
jargs(I, A, _) :- I > A, !.
jargs(I, A, T) :- (I > 1 -> put_char(',') ; true), arg(I, T, X), je(X), I1 is I + 1, jargs(I1, A, T).
jname(A) :- atom_codes(A, L), put_char('['), jcodes(L), put_char(']').
jcodes([]).
jcodes([C]) :- !, int(C).
jcodes([C|L]) :- int(C), put_char(','), jcodes(L).

int(N) :- N < 0, !, put_char('-'), nint(N).
int(N) :- N < 10, !, C is N + 0'0, put_code(C).
int(N) :- Q is N // 10, int(Q), C is N rem 10 + 0'0, put_code(C).
nint(N) :- N > -10, !, C is 0'0 - N, put_code(C).
nint(N) :- Q is N // 10, nint(Q), C is 0'0 - (N rem 10), put_code(C).
% mantissa and power of two, exactly
fl(F) :- F =:= 0.0, !, put_string("0 0").
fl(F) :- abs(F) >= 4503599627370496.0, !, up(F, 0).
fl(F) :- down(F, 0).
up(F, E) :- abs(F) >= 9007199254740992.0, !, F1 is F / 2.0, E1 is E + 1, up(F1, E1).
up(F, E) :- M is truncate(F), int(M), put_char(' '), int(E).
down(F, E) :- abs(F) < 4503599627370496.0, !, F1 is F * 2.0, E1 is E - 1, down(F1, E1).
down(F, E) :- M is truncate(F), int(M), put_char(' '), int(E).

put_string([]).
put_string([C|L]) :- put_code(C), put_string(L).
