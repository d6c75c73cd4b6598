% Test driver: runs the queries nt/ct(Id, Q, Goal, Vars, Max) and prints one JSON line per event.
:- initialization(main).

main :-
	environ('TESTFILE', File), environ('TESTMODE', Mode),
	environ('TESTLO', Lo0), environ('TESTHI', Hi0), number_atom(Lo, Lo0), number_atom(Hi, Hi0),
	catch(load(Mode, File), E, (j(load_error, E))),
	(   Mode = native -> Table = nt ; Table = ct ),
	tests(Table, Mode, Lo, Hi),
	put_string("{\"done\":1}\n"), flush_output,
	halt.

load(native, _).
load(consult, File) :- consult(File).
load(meta, File) :- consult(File).
load(dynamic, File) :- load_dynamic(File).

tests(Table, Mode, Lo, Hi) :-
	call(Table, Id, Q, G, Vs, Max, Body, BVs),
	Id >= Lo, Id =< Hi,
	(   Mode = meta -> once_run(Id, Q, Body, BVs, Max) ; once_run(Id, Q, G, Vs, Max) ),
	fail.
tests(_, _, _, _).

load_dynamic(File) :- open(File, read, S), load_dyn(S), close(S).

load_dyn(S) :- repeat, read(S, C), (C = end_of_file -> ! ; dyn_clause(C), fail).

dyn_clause((:- dynamic(N/A))) :- !, functor(H, N, A), retractall(H).
dyn_clause((:- discontiguous(_))) :- !.
dyn_clause((:- G)) :- !, call(G).
dyn_clause(C) :- expand_term(C, C1), assertz(C1).

once_run(Id, Q, G, Vs, Max) :-
	put_string("{\"t\":"), write(Id), put_string(",\"q\":"), write(Q), put_string("}\n"), flush_output,
	g_assign('$nsol', 0), g_assign('$reloads', 0),
	catch(run_query(G, Vs, Max), B, ball(B)), !,
	put_string("{\"end\":1}\n"), flush_output.

run_query(G, Vs, Max) :-
	call(G),
	j(sol, Vs),
	g_inc('$nsol', N),
	N >= Max, !,
	put_string("{\"k\":\"stop\"}\n").
run_query(_, _, _) :- put_string("{\"k\":\"no\"}\n").

ball(error(F, _)) :- !, j(err, F).
ball(B) :- j(ball, B).

% events of the programs under test
ev(X) :- j(ev, X).
evb(B) :- nonvar(B), B = error(F, _), !, j(err, F).
evb(B) :- j(ball, B).
fill(F, N) :- fill(1, N, F).
fill(I, N, _) :- I > N, !.
fill(I, N, F) :- T =.. [F, I], assertz(T), I1 is I + 1, fill(I1, N, F).

% the file of the running program is loaded again (same text), then a thousand clauses are erased: nothing to be seen
:- dynamic(['$garbage'/1]).
reload :-
	environ('TESTMODE', consult), environ('TESTFILE', File),
	g_read('$reloads', N), N < 60, !,
	g_inc('$reloads'),
	consult(File),
	garbage(1100).
reload.
garbage(0) :- !.
garbage(N) :- assertz('$garbage'(N)), retract('$garbage'(N)), !, N1 is N - 1, garbage(N1).

% a grammar rule at run time
x_dcg(R) :- expand_term(R, C), assertz(C).

% helpers around destructive built-ins
x_setarg(N, T, X, R) :- copy_term(T, T1), setarg(N, T1, X), R = T1.
x_setargb(N, T, X, U, In, After) :- copy_term(T, T1), findall(T1, setarg(N, T1, X, U), In1), In = In1, After = T1.
x_sort1(K, L, R) :- copy_term(L, L1), x_sort1_(K, L1), R = L1.
x_setarg_any(N, T, X, R) :- x_setarg(N, T, X, R).
x_sort1_any(K, L, R) :- x_sort1(K, L, R).
x_sort1_(sort, L) :- sort(L).
x_sort1_(msort, L) :- msort(L).
x_sort1_(keysort, L) :- keysort(L).

x_atoms(N) :- N =< 0, !.
x_atoms(N) :- g_inc('$atoms', K), number_atom(K, A), atom_concat('xx ', A, _), N1 is N - 1, x_atoms(N1).

% overwrites the free part of the local stack, so that a stale reference to it shows
clobber(0) :- !.
clobber(N) :- N1 is N - 1, clob(A, B, C, D, E, F, G, H), clobber(N1), clob(A, B, C, D, E, F, G, H).
clob('$stale', '$stale', '$stale', '$stale', '$stale', '$stale', '$stale', '$stale').

j(Kind, T) :- clobber(9), j1(Kind, T).
j1(Kind, T) :-
	put_string("{\"k\":\""), write(Kind), put_string("\",\"v\":"),
	\+ \+ jt(T), put_string("}\n"), flush_output.

jt(T) :- copy_term(T, T1), number_vars(T1, 1, _), je(T1).

number_vars(T, N, N1) :- var(T), !, T = '$ v'(N), N1 is N + 1.
number_vars('$ v'(_), N, N) :- !.
number_vars(T, N, N1) :- compound(T), !, functor(T, _, A), number_args(1, A, T, N, N1).
number_vars(_, N, N).

number_args(I, A, _, N, N) :- I > A, !.
number_args(I, A, T, N, N2) :- arg(I, T, X), number_vars(X, N, N1), I1 is I + 1, number_args(I1, A, T, N1, N2).

je('$ v'(N)) :- !, put_string("[\"v\","), write(N), put_char(']').
je(T) :- atom(T), !, put_string("[\"a\","), jstr(T), put_char(']').
je(T) :- integer(T), !, (T < 1073741824, T > -1073741824 -> put_string("[\"i\","), write(T), put_char(']')
	; put_string("[\"I\",\""), write(T), put_string("\"]")).
je(T) :- float(T), !, put_string("[\"f\",\""), write(T), put_string("\"]").
je(T) :- functor(T, F, A), put_string("[\"s\","), jstr(F), put_string(",["), jargs(1, A, T), put_string("]]").

jargs(I, A, _) :- I > A, !.
jargs(I, A, T) :- (I > 1 -> put_char(',') ; true), arg(I, T, X), je(X), I1 is I + 1, jargs(I1, A, T).

jstr(A) :- put_char('"'), atom_codes(A, L), jcodes(L), put_char('"').
jcodes([]).
jcodes([C|L]) :- jcode(C), jcodes(L).
jcode(0'") :- !, put_string("\\\"").
jcode(0'\\) :- !, put_string("\\\\").
jcode(C) :- C < 32, !, put_string("\\u00"), H is C >> 4, L is C /\ 15, hex(H), hex(L).
jcode(C) :- put_code(C).
hex(N) :- N < 10, !, C is N + 0'0, put_code(C).
hex(N) :- C is N + 0'a - 10, put_code(C).

put_string([]).
put_string([C|L]) :- put_code(C), put_string(L).
