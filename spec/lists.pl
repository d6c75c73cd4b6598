% Textbook definitions of the list library, run by the abstract machine (spec/Machine.tla).
append([], L, L).
append([H|T1], L, [H|T2]) :- append(T1, L, T2).

member(X, [H|T]) :- X = H ; member(X, T).

memberchk(X, [H|T]) :- X = H -> true ; memberchk(X, T).

% a proper result list determines the length of the other one
reverse(L1, L2) :- partial_list(L1), is_list(L2), !, '$same_length'(L1, L2), '$reverse'(L1, [], L2).
reverse(L1, L2) :- '$reverse'(L1, [], L2).
'$reverse'([], A, A).
'$reverse'([H|T], A, R) :- '$reverse'(T, [H|A], R).
'$same_length'([], []) :- !.
'$same_length'([_|T1], [_|T2]) :- '$same_length'(T1, T2).

delete([], _, []).
delete([H|T], X, L) :- H == X, !, delete(T, X, L).
delete([H|T], X, [H|L]) :- delete(T, X, L).

select(X, [X|T], T).
select(X, [H|T1], [H|T2]) :- select(X, T1, T2).

subtract([], _, []).
subtract([X|L1], L2, L3) :- memberchk(X, L2), !, subtract(L1, L2, L3).
subtract([X|L1], L2, [X|L3]) :- subtract(L1, L2, L3).

permutation([], []).
permutation(L, [H|T]) :- select(H, L, Rest), permutation(Rest, T).

prefix([], _).
prefix([X|T], [X|T1]) :- prefix(T, T1).

suffix(L, L).
suffix(X, [_|T]) :- suffix(X, T).

sublist(L, L).
sublist(Sub, [H|T]) :- '$sublist1'(T, H, Sub).
'$sublist1'(Sub, _, Sub).
'$sublist1'([H|T], _, Sub) :- '$sublist1'(T, H, Sub).
'$sublist1'([H|T], X, [X|Sub]) :- '$sublist1'(T, H, Sub).

last([H|T], X) :- '$last1'(T, H, X).
'$last1'([], X, X).
'$last1'([H|T], _, X) :- '$last1'(T, H, X).

nth(N, L, X) :- nth1(N, L, X).
nth1(N, L, X) :- integer(N), !, '$nth'(L, 1, N, X).
nth1(N, L, X) :- var(N), '$nth_gen'(L, X, 1, N).
nth0(N, L, X) :- integer(N), !, '$nth'(L, 0, N, X).
nth0(N, L, X) :- var(N), '$nth_gen'(L, X, 0, N).
'$nth'(L, I, N, X) :- I =< N, L = [H|T], ( I = N -> X = H ; I1 is I + 1, '$nth'(T, I1, N, X) ).
'$nth_gen'([X|_], X, N, N).
'$nth_gen'([_|L], X, I, N) :- I1 is I + 1, '$nth_gen'(L, X, I1, N).

max_list([H|T], M) :- '$max_list'(T, H, M).
'$max_list'([], M, M).
'$max_list'([H|T], X, M) :- H =< X, !, '$max_list'(T, X, M).
'$max_list'([H|T], _, M) :- '$max_list'(T, H, M).
min_list([H|T], M) :- '$min_list'(T, H, M).
'$min_list'([], M, M).
'$min_list'([H|T], X, M) :- H >= X, !, '$min_list'(T, X, M).
'$min_list'([H|T], _, M) :- '$min_list'(T, H, M).
sum_list(L, S) :- '$sum_list'(L, 0, S).
'$sum_list'([], S, S).
'$sum_list'([H|T], S0, S) :- S1 is H + S0, '$sum_list'(T, S1, S).

flatten(L, F) :- '$flatten'(L, F1), F = F1.
'$flatten'(L, [L]) :- var(L), !.
'$flatten'([], []) :- !.
'$flatten'([H|T], F) :- !, '$flatten'(H, F1), '$flatten'(T, F2), append(F1, F2, F).
'$flatten'(X, [X]).

maplist(G, L) :- '$maplist'(L, G).
'$maplist'([], _).
'$maplist'([X|L], G) :- call(G, X), '$maplist'(L, G).
maplist(G, L1, L2) :- '$maplist'(L1, L2, G).
'$maplist'([], [], _).
'$maplist'([X|L], [Y|M], G) :- call(G, X, Y), '$maplist'(L, M, G).
maplist(G, L1, L2, L3) :- '$maplist'(L1, L2, L3, G).
'$maplist'([], [], [], _).
'$maplist'([X|L], [Y|M], [Z|N], G) :- call(G, X, Y, Z), '$maplist'(L, M, N, G).
maplist(G, L1, L2, L3, L4) :- '$maplist'(L1, L2, L3, L4, G).
'$maplist'([], [], [], [], _).
'$maplist'([X|L], [Y|M], [Z|N], [A|O], G) :- call(G, X, Y, Z, A), '$maplist'(L, M, N, O, G).

length(_, N) :- nonvar(N), \+ integer(N), !, '$throw'(type_error(integer, N)).
length(_, N) :- integer(N), N < 0, !, '$throw'(domain_error(not_less_than_zero, N)).
length(L, N) :- is_list(L), !, '$len'(L, 0, N).
length(L, N) :- partial_list(L), !, '$plen'(L, 0, N).
'$len'([], N, N).
'$len'([_|T], I, N) :- I1 is I + 1, '$len'(T, I1, N).
'$plen'(L, I, N) :- nonvar(L), !, L = [_|T], I1 is I + 1, '$plen'(T, I1, N).
'$plen'(L, _, N) :- L == N, !, '$throw'(resource_error(finite_memory)).
'$plen'(L, I, N) :- integer(N), !, '$mklist'(L, I, N).
'$plen'(L, I, N) :- '$genlist'(L, I, N).
'$mklist'([], N, N) :- !.
'$mklist'([_|T], I, N) :- I < N, I1 is I + 1, '$mklist'(T, I1, N).
'$genlist'([], N, N).
'$genlist'([_|T], I, N) :- I1 is I + 1, '$genlist'(T, I1, N).
