% Driver of the finite domain histories: reads ft(Id, Vars, Script) terms and prints one JSON line per event.
:- initialization(main).

main :-
	environ('TESTFILE', File), environ('TESTLO', Lo0), environ('TESTHI', Hi0),
	number_atom(Lo, Lo0), number_atom(Hi, Hi0),
	open(File, read, S),
	repeat,
	read(S, T),
	(   T == end_of_file -> !
	;   T = ft(Id, _, _), Id >= Lo, Id =< Hi, test(T), fail
	),
	close(S),
	put_string("{\"done\":1}\n"), flush_output,
	halt.

test(ft(Id, Vs, Script)) :-
	format("{\"t\":~d}~n", [Id]), flush_output,
	(   catch(exec(Script, Vs), E, true) ->
	    (   var(E) -> true ; ev(died, 0, Vs, [other(E)]) )
	;   true
	),
	ev(end, 0, Vs, []).

exec([], _).
exec([Op|R], Vs) :-
	op(Op, Vs),
	exec(R, Vs).

op(c(Id, G), Vs) :-                       % a constraint
	catch(post(G, R), E, R = err(E)),
	ev(op, Id, Vs, [r(R)]),
	R \== fail.
op(try(Id, S), Vs) :-                     % run and undo by failure
	ev(push, Id, Vs, []),
	(   exec(S, Vs), fail
	;   true
	),
	ev(undo, Id, Vs, []).
op(tryc(Id, S), Vs) :-                    % run and undo by an exception
	ev(push, Id, Vs, []),
	(   catch((exec(S, Vs), throw(out)), E, out(E)) -> true ; true ),
	ev(undo, Id, Vs, []).
op(opt(Id, S), Vs) :-                     % commit to the first way or undo
	ev(push, Id, Vs, []),
	(   exec(S, Vs) -> ev(keep, Id, Vs, [])
	;   ev(undo, Id, Vs, [])
	).
op(alt(Id, S1, S2), Vs) :-                % a choice point
	ev(push, Id, Vs, []),
	(   exec(S1, Vs)
	;   ev(undo, Id, Vs, []),
	    exec(S2, Vs)
	).
op(sols(Id, Lab, Opts), Vs) :-            % all solutions
	findall(Vs, lab(Lab, Opts), L),
	ev(sols, Id, Vs, [l(L)]).
op(back(Id, Opts), Vs) :-                 % number of backtracks of a complete labeling
	findall(Vs, lab(Vs, Opts), L),
	ev(sols, Id, Vs, [l(L)]).
op(nth(Id, Lab, Opts, N), Vs) :-          % commit to the n-th solution
	(   nth_sol(N, lab(Lab, Opts)) -> R = ok ; R = fail ),
	ev(nth, Id, Vs, [r(R)]),
	R == ok.
op(best(Id, Min, Goal, X), Vs) :-
	catch(best(Min, Goal, X, R), E, R = err(E)),
	ev(best, Id, Vs, [r(R)]),
	R \== fail.
op(fail, _) :- fail.

post(G, R) :- (   call(G) -> R = ok ; R = fail ).
out(out) :- !.
out(E) :- throw(E).
best(min, G, X, R) :- (   fd_minimize(G, X) -> R = ok ; R = fail ).
best(max, G, X, R) :- (   fd_maximize(G, X) -> R = ok ; R = fail ).

lab(L, none) :- fd_labeling(L).
lab(L, ff) :- fd_labelingff(L).
lab(L, [O|Os]) :- fd_labeling(L, [O|Os]).
lab(L, []) :- fd_labeling(L, []).

nth_sol(N, G) :-
	C = c(0),
	call(G),
	arg(1, C, K), K1 is K + 1, setarg(1, C, K1, false),
	K1 >= N, !.

ev(Kind, Id, Vs, Extra) :-
	format("{\"e\":\"~a\",\"id\":~d,\"dom\":[", [Kind, Id]),
	doms(Vs),
	put_string("]"),
	extra(Extra),
	put_string("}\n"), flush_output.

doms([]).
doms([X]) :- !, dom(X).
doms([X|L]) :- dom(X), put_char(','), doms(L).

dom(X) :- integer(X), !, format("{\"k\":\"int\",\"n\":~d}", [X]).
dom(X) :- fd_var(X), !,
	fd_min(X, Min), fd_max(X, Max), fd_size(X, Size),
	(   Size =< 300 -> fd_dom(X, L) ; L = [] ),
	(   fd_has_vector(X) -> V = 1 ; V = 0 ),
	(   fd_has_extra_cstr(X) -> C = 1 ; C = 0 ),
	format("{\"k\":\"fd\",\"min\":~d,\"max\":~d,\"size\":~d,\"vals\":", [Min, Max, Size]),
	write(L),
	format(",\"vec\":~d,\"xc\":~d}", [V, C]).
dom(X) :- var(X), !, put_string("{\"k\":\"free\"}").
dom(_) :- put_string("{\"k\":\"other\"}").

put_string([]).
put_string([C|L]) :- put_code(C), put_string(L).

extra([]).
extra([r(R)|L]) :- put_string(",\"r\":"), res(R), extra(L).
extra([l(S)|L]) :- put_string(",\"l\":"), sols(S), extra(L).
extra([other(E)|L]) :- put_string(",\"r\":"), res(err(E)), extra(L).
res(err(E)) :- !, (   E = error(F, _) -> true ; F = E ), write_to_codes(Cs, F), put_string("\"err "), esc(Cs), put_string("\"").
res(R) :- format("\"~a\"", [R]).
esc([]).
esc([C|L]) :- (   (C =:= 34 ; C =:= 92) -> put_code(92) ; true ), put_code(C), esc(L).
sols([]) :- put_string("[]").
sols([S|L]) :- put_string("["), sol(S), sols1(L).
sols1([]) :- put_string("]").
sols1([S|L]) :- put_char(','), sol(S), sols1(L).
sol(S) :- (   ints(S) -> write(S) ; put_string("[]") ).
ints([]).
ints([X|L]) :- integer(X), ints(L).
