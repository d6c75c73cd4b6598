% Runs one history of stream operations and prints what each did, one JSON line per event, to a file of its own.
% '$h'(K) stands for the K-th saved stream and '$p'(K) for the K-th saved position.
:- initialization(main).
:- dynamic(h/2).
:- dynamic(p/2).

main :-
	environ('TESTFILE', File),
	open(File, read, S), read(S, Cs), close(S),
	atom_concat(File, '.out', Out),
	open(Out, write, R), g_assign('$r', R),
	g_assign('$n', 0),
	cmds(Cs, 1),
	ps("{\"done\":1}\n"), flush_output(R), halt.

cmds([], _).
cmds([C|Cs], N) :- ( cmd(C, N), fail ; true ), N1 is N + 1, cmds(Cs, N1).

cmd(do(Sv, G0), N) :- do(Sv, G0, N).
cmd(q(G0), N) :-
	subst(G0, G), ev(N, call, G),
	catch((findall(G, G, L), ev(N, rows, L)), E, (ball(E, B), ev(N, err, B))).
cmd(scan(G0, Acts), N) :-
	subst(G0, G), ev(N, call, G), g_assign('$acts', Acts),
	(   catch(G, E, (ball(E, B), ev(N, err, B), fail)), ev(N, row, G),
	    g_read('$acts', [do(Sv, A)|As]), g_assign('$acts', As), do(Sv, A, N), fail
	;   true
	),
	ev(N, end, end).
cmd(phys(F), N) :-
	open(F, read, S, [type(binary)]), bytes(S, L), close(S), ev(N, phys, L).

bytes(S, L) :- get_byte(S, B), ( B < 0 -> L = [] ; L = [B|L1], bytes(S, L1) ).

do(Sv, G0, N) :-
	subst(G0, G), ev(N, call, G),
	( catch((call(G) -> R = ok(G) ; R = fail), E, (ball(E, B), R = err(B))) -> true ; R = fail ),
	( R = ok(_) -> save(Sv, G) ; true ),
	ev(N, res, R).

save(none, _).
save(s(K, I), G) :- arg(I, G, S), asserta(h(K, S)).
save(p(K, I), G) :- arg(I, G, P), asserta(p(K, P)).

subst(X, X) :- var(X), !.
subst('$h'(K), S) :- !, ( h(K, S0) -> S = S0 ; S = nohandle ).
subst('$p'(K), S) :- !, ( p(K, S0) -> S = S0 ; S = noposition ).
subst(X, Y) :- compound(X), !, X =.. [F|As], substs(As, Bs), Y =.. [F|Bs].
subst(X, X).
substs([], []).
substs([X|Xs], [Y|Ys]) :- subst(X, Y), substs(Xs, Ys).

ball(E, B) :- nonvar(E), E = error(F, _), !, B = F.
ball(E, ball(E)).

ev(N, K, T) :-
	ps("{\"n\":"), int(N), ps(",\"k\":\""), atom_codes(K, L), ps(L), ps("\",\"v\":"),
	\+ \+ jt(T), ps("}\n"), g_read('$r', R), flush_output(R).

pc(C) :- g_read('$r', R), put_char(R, C).
pn(C) :- g_read('$r', R), put_code(R, C).

jt(T) :- copy_term(T, T1), number_vars(T1, 1, _), je(T1).

number_vars(T, N, N1) :- var(T), !, T = '$ v'(N), N1 is N + 1.
number_vars('$ v'(_), N, N) :- !.
number_vars(T, N, N1) :- compound(T), !, functor(T, _, A), number_args(1, A, T, N, N1).
number_vars(_, N, N).
number_args(I, A, _, N, N) :- I > A, !.
number_args(I, A, T, N, N2) :- arg(I, T, X), number_vars(X, N, N1), I1 is I + 1, number_args(I1, A, T, N1, N2).

je('$ v'(N)) :- !, ps("[\"v\","), int(N), pc(']').
je(T) :- atom(T), !, ps("[\"a\","), jname(T), pc(']').
je(T) :- integer(T), !, ps("[\"n\",\""), int(T), ps("\"]").
je(T) :- float(T), !, ps("[\"f\",\""), fl(T), ps("\"]").
je(T) :- T = [_|_], !, ps("[\"l\",["), jlist(T, Tl), ps("],"), je(Tl), pc(']').
je(T) :- functor(T, F, A), ps("[\"s\","), jname(F), ps(",["), jargs(1, A, T), ps("]]").
jlist([X|T], Tl) :- je(X), ( nonvar(T), T = [_|_] -> pc(','), jlist(T, Tl) ; Tl = T ).
jargs(I, A, _) :- I > A, !.
jargs(I, A, T) :- (I > 1 -> pc(',') ; true), arg(I, T, X), je(X), I1 is I + 1, jargs(I1, A, T).
jname(A) :- atom_codes(A, L), pc('['), jcodes(L), pc(']').
jcodes([]).
jcodes([C]) :- !, int(C).
jcodes([C|L]) :- int(C), pc(','), jcodes(L).

int(N) :- N < 0, !, pc('-'), nint(N).
int(N) :- N < 10, !, C is N + 0'0, pn(C).
int(N) :- Q is N // 10, int(Q), C is N rem 10 + 0'0, pn(C).
nint(N) :- N > -10, !, C is 0'0 - N, pn(C).
nint(N) :- Q is N // 10, nint(Q), C is 0'0 - (N rem 10), pn(C).
% mantissa and power of two, exactly
fl(F) :- F =:= 0.0, !, ps("0 0").
fl(F) :- abs(F) >= 4503599627370496.0, !, up(F, 0).
fl(F) :- down(F, 0).
up(F, E) :- abs(F) >= 9007199254740992.0, !, F1 is F / 2.0, E1 is E + 1, up(F1, E1).
up(F, E) :- M is truncate(F), int(M), pc(' '), int(E).
down(F, E) :- abs(F) < 4503599627370496.0, !, F1 is F * 2.0, E1 is E - 1, down(F1, E1).
down(F, E) :- M is truncate(F), int(M), pc(' '), int(E).

ps([]).
ps([C|L]) :- pn(C), ps(L).
