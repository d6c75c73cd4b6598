% Runs one history of edits of source files, loads, database changes and dumps.  Messages of the system, marks and
% results are printed in order, one per line.
:- initialization(main).

main :-
	environ('TESTFILE', File), environ('TESTROOT', Root), environ('TESTCWD', Cwd),
	open(File, read, S), read(S, Cs), close(S),
	g_assign(zz_root, Root),
	change_working_directory(Cwd),
	zz_cmds(Cs, 1),
	write('@@ done'), nl, flush_output, halt.

change_working_directory(Cwd) :- change_directory(Cwd).

zz_cmds([], _).
zz_cmds([C|Cs], N) :- format("@@ ev ~d~n", [N]), ( zz_cmd(C), fail ; true ), N1 is N + 1, zz_cmds(Cs, N1).

zz_cmd(edit(Path, Codes)) :-
	zz_abs(Path, F), open(F, write, W), zz_put(Codes, W), close(W).
zz_cmd(load(abs, Ps)) :- !, zz_all_abs(Ps, Fs), ( Fs = [F] -> zz_res(consult(F)) ; zz_res(consult(Fs)) ).
zz_cmd(load(rel, Fs)) :- ( Fs = [F] -> zz_res(consult(F)) ; zz_res(consult(Fs)) ).
zz_cmd(load(list, Fs)) :- zz_res(call(Fs)).
zz_cmd(g(G)) :- zz_res(G).
zz_cmd(dump(L)) :- zz_dump(L).

zz_all_abs([], []).
zz_all_abs([P|Ps], [F|Fs]) :- zz_abs(P, F), zz_all_abs(Ps, Fs).
zz_abs(P, F) :- g_read(zz_root, R), atom_concat(R, P, F).
zz_put([], _).
zz_put([C|L], S) :- put_code(S, C), zz_put(L, S).
zz_res(G) :- catch(( call(G) -> R = ok ; R = fail ), R, true), format("@@ r ~q~n", [R]).

zz_dump([]).
zz_dump([N/A|L]) :-
	(   current_predicate(N/A) ->
	    functor(H, N, A),
	    ( predicate_property(H, dynamic) -> D = 1 ; D = 0 ),
	    ( predicate_property(H, public) -> P = 1 ; P = 0 ),
	    ( predicate_property(H, multifile) -> M = 1 ; M = 0 ),
	    ( predicate_property(H, prolog_file(F)) -> true ; F = '' ),
	    ( predicate_property(H, prolog_line(Li)) -> true ; Li = 0 ),
	    ( predicate_property(H, native_code) -> Na = 1 ; Na = 0 ),
	    format("@@ p ~w ~d ~d ~d ~d ~d ~a|", [N/A, D, P, M, Na, Li, F]),
	    zz_ids(N), nl
	;   true
	),
	zz_dump(L).

zz_ids(N) :- functor(H, N, 1), arg(1, H, T), ( call(H), zz_id(T, I), write(' '), write(I), fail ; true ).
zz_id(T, T) :- integer(T).
zz_id(T, I) :- compound(T), functor(T, _, A), arg(A, T, I).

zz_mk(K) :- format("@@ mk ~d~n", [K]), flush_output.
zz_sn(N/A) :- format("@@ sn ~w|", [N/A]), ( current_predicate(N/A) -> zz_ids(N) ; write(' none') ), nl, flush_output.
