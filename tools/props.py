#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of every property lives here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

BOOT = ("The tests recompile the compiler and the built-in library with each execution mode and run a few dozen closed example "
        "programs; ")

p("P01", "Programs compute the standard answers, in order, in every execution mode",
  "For any program built from clauses with conjunction, disjunction, if-then(-else), soft-cut (*->), negation, cut, call/N, unification, type tests and simple arithmetic, a query yields exactly the answers of depth-first, left-to-right resolution, in that order, and its side effects happen in that order; a cut discards exactly the alternatives created since its clause (or its call/N, condition or negation) was entered. The result is the same whether the program is compiled to native code, consulted, or asserted as dynamic clauses, and does not depend on the number of arguments, variables, goals or the size and nesting of terms.",
  ["programs", "inputs"], "every program of the pure-control fragment, every query, and all three execution modes",
  BOOT + "no test compares the answers of generated programs between modes or with the definition, so unusual shapes (cuts inside conditions, many arguments, deep terms in heads, long disjunctions) are never reached.",
  ["src/Pl2Wam/syn_sugar.pl", "src/Pl2Wam/internal.pl", "src/Pl2Wam/code_gen.pl", "src/Pl2Wam/reg_alloc.pl", "src/Pl2Wam/inst_codif.pl", "src/Wam2Ma/wam2ma.c", "src/Ma2Asm/x86_64_any.c", "src/EnginePl/wam_inst.c", "src/BipsPl/bc_supp.c", "src/BipsPl/call.pl"],
  [("control constructs turned into clauses, cut barrier variables", "src/Pl2Wam/syn_sugar.pl"), ("WAM code generation and register allocation", "src/Pl2Wam/code_gen.pl, reg_alloc.pl"), ("choice points, environments, trail", "src/EnginePl/wam_inst.c"), ("byte-code emulator and meta-call", "src/BipsPl/bc_supp.c, call.pl")],
  ["sequence of answers and of output events of a query"],
  [("continuation, binding store, trail, choice-point stack", "the abstract machine state", "spec/Machine.tla")])

p("P02", "A call is resolved against exactly the clauses whose heads unify",
  "A call to a user predicate tries exactly the clauses whose head unifies with it, each once, in source order, and gives exactly the bindings of unification, whatever the number of clauses, the kinds of first arguments (variables, atoms, small and large integers, floats, lists, structures of any name and arity) and the instantiation of the call. This holds for compiled, consulted and dynamic predicates alike, and also after clauses have been added or removed.",
  ["programs", "inputs", "histories"], "every predicate, every call pattern, every first-argument mix, static and dynamic",
  BOOT + "clause indexing is exercised only with the keys occurring in those sources; collisions, mixed types, extreme integers, floats and tables grown by assert are not.",
  ["src/Pl2Wam/indexing.pl", "src/Pl2Wam/first_arg.pl", "src/EnginePl/wam_inst.c", "src/EnginePl/unify.c", "src/EnginePl/hash_tbl.c", "src/BipsPl/dynam_supp.c", "src/BipsPl/bc_supp.c"],
  [("switch_on_term/atom/integer/structure generation", "src/Pl2Wam/indexing.pl"), ("switch tables at run time", "src/EnginePl/wam_inst.c Pl_Switch_On_*"), ("dynamic-clause index chains", "src/BipsPl/dynam_supp.c")],
  ["answers of a call"])

p("P03", "Exceptions reach the innermost active matching catch and undo its scope",
  "A ball thrown by throw/1 or by a failing built-in is copied and delivered to the innermost catch/3 whose goal is still being executed and whose catcher unifies with the ball; catchers of goals already exited are skipped, and are active again when backtracking re-enters the goal. On delivery every binding and every alternative made since that catch/3 was called is discarded before the recovery goal runs, and without a matching catch the ball ends the query.",
  ["programs", "histories"], "every nesting of catch, throw, cut, backtracking and errors of built-ins",
  BOOT + "exceptions occur there in one or two fixed places.",
  ["src/BipsPl/catch.pl", "src/BipsPl/throw.pl", "src/BipsPl/throw_c.c", "src/BipsPl/error_supp.c", "src/EnginePl/engine.c", "src/BipsPl/call.pl"],
  [("handler register saved/restored around each goal, $trail_handler choice point", "src/BipsPl/catch.pl"), ("unwind cuts to the handler's choice point", "src/BipsPl/throw_c.c Pl_Throw_2")],
  ["events, answers and final ball of a query"])

p("P04", "Dynamic clauses follow the logical update view",
  "A call, clause/2 or retract/1 on a dynamic predicate enumerates exactly the clauses that were in the database when it began, in database order, whatever asserta/1, assertz/1, retract/1, retractall/1 and abolish/1 do meanwhile; a new call sees exactly the clauses asserted and not yet retracted. A clause is stored and retrieved as a copy (renamed apart), retract removes only the clause it unified with, and all of this continues to hold when erased clauses are reclaimed.",
  ["histories", "programs"], "every interleaving of open enumerations with updates, on predicates of any size",
  BOOT + "they never update a predicate while it is being enumerated, and never erase enough clauses to trigger reclamation while an enumeration is open.",
  ["src/BipsPl/dynam_supp.c", "src/BipsPl/assert_c.c", "src/BipsPl/assert.pl", "src/BipsPl/bc_supp.c", "src/EnginePl/hash_tbl.c", "src/EnginePl/pred.c"],
  [("clause numbers bound a scan; erase stamps hide later retractions", "src/BipsPl/dynam_supp.c Pl_Scan_Dynamic_Pred"), ("erased clauses reclaimed only when no scan needs them", "src/BipsPl/dynam_supp.c GC_Clause")],
  ["answers of clause/2, retract/1 and calls; error terms"],
  [("clause database, open scans", "snapshot per open enumeration", "spec/Machine.tla")])

p("P05", "findall, bagof, setof, forall and countall collect exactly the solutions",
  "findall/3,4 returns fresh copies of the template, one per solution, in solution order; bagof/3 and setof/3 partition the solutions by the free variables of the goal (those not in the template nor bound with ^), and enumerate the groups in standard order of their witness with, within a group, solution order (bagof) or sorted without duplicates (setof), failing when there is none. forall/2 and countall/2 agree with the solutions enumerated, and nesting, backtracking into and exceptions out of these never leak solutions from one collection to another.",
  ["programs", "inputs"], "every goal, template, free-variable set, nesting and re-entry",
  BOOT + "only a few flat uses occur.",
  ["src/BipsPl/all_solut.pl", "src/BipsPl/all_solut_c.c", "src/BipsPl/call.pl", "src/BipsPl/sort_c.c"],
  [("solution stack with stop marks", "src/BipsPl/all_solut_c.c"), ("free variable computation", "src/BipsPl/all_solut_c.c Pl_Free_Variables_4"), ("grouping by witness", "src/BipsPl/all_solut_c.c Pl_Group_Solutions_3")],
  ["answers"])

p("P06", "Global variables: copies, links, arrays and their undoing on backtracking",
  "Reading a global variable (or an array element or selected sub-term) yields the last value assigned to it: a fresh copy for g_assign/2 and g_assignb/2, the same term for g_link/2, and the old or new counter value for the g_inc/g_dec family and bit operations. On backtracking (by failure, cut or exception recovery) exactly the assignments made by g_assignb/2, g_link/2 and undoable setarg since the choice point are undone, in reverse order, while g_assign/2 and non-undoable setarg/4 persist.",
  ["histories", "programs"], "every history of assignments to atoms, array elements and sub-terms interleaved with choice points, cuts and exceptions",
  BOOT + "global variables are used there in straight-line code only.",
  ["src/BipsPl/g_var_inl_c.c", "src/BipsPl/term_inl_c.c", "src/EnginePl/wam_inst.c", "src/EnginePl/engine.h"],
  [("value/function trail entries", "src/BipsPl/g_var_inl_c.c, src/EnginePl/wam_inst.c Pl_Untrail"), ("setarg/4 value trail", "src/BipsPl/term_inl_c.c")],
  ["values read; answers"])

p("P07", "Standard order of terms is a total order and sorting respects it",
  "compare/3 and the @-operators decide one total order: variables, then floats by value, integers by value, atoms by character codes, and compound terms by arity, name and arguments left to right; == is its equality. sort/1,2 returns the strictly increasing list of the distinct elements, msort/1,2 the non-decreasing list keeping duplicates, and keysort/1,2 orders pairs by key keeping the original order of equal keys.",
  ["inputs"], "every pair and list of terms",
  BOOT + "sorting is only checked through the programs that happen to use it, on small homogeneous lists.",
  ["src/BipsPl/term_supp.c", "src/BipsPl/sort_c.c", "src/BipsPl/term_inl_c.c", "src/BipsPl/sort.pl"],
  [("Pl_Term_Compare", "src/BipsPl/term_supp.c"), ("merge sort on an array", "src/BipsPl/sort_c.c")],
  ["result of compare/3, @</2..., sort/1,2, msort/1,2, keysort/1,2"])

p("P08", "Terms are built, taken apart, copied and unified as the standard says",
  "For all arguments, =/2, \\=/2, unify_with_occurs_check/2, functor/3, arg/3, =../2, copy_term/2, term_variables/2,3, subsumes_term/2, ground/1, setarg/3,4, numbervars/1,3, bind_variables/2 and the type tests succeed with exactly the bindings given by their definition on finite terms, fail, or raise the standard error. copy_term/2 preserves sharing among variables and renames every variable apart, and no test leaves bindings behind.",
  ["inputs"], "every combination of argument terms and instantiation patterns",
  BOOT + "these are exercised only in the modes those programs need.",
  ["src/EnginePl/unify.c", "src/BipsPl/term_inl_c.c", "src/BipsPl/term_supp.c", "src/BipsPl/type_inl_c.c", "src/BipsPl/unify.pl", "src/BipsPl/term_inl.pl"],
  [("Pl_Unify, Pl_Unify_Occurs_Check", "src/EnginePl/unify.c"), ("functor/arg/univ/copy/term_variables", "src/BipsPl/term_inl_c.c"), ("copying", "src/BipsPl/term_supp.c")],
  ["answers, bindings and error terms"])

p("P09", "Integer arithmetic is exact or reports overflow",
  "Evaluating any integer expression (+, -, *, //, rem, div, mod, /\\, \\/, xor, \\, <<, >>, ^, abs, sign, min, max, gcd, inc, dec, lsb, msb, popcount, unary + and -) with is/2, succ/2 or a comparison gives the mathematically exact integer when it is representable, and otherwise an evaluation error (int_overflow, zero_divisor, undefined) or the type or domain error of the operand, never a wrong number. The result is the same in native, consulted and meta-called code.",
  ["inputs", "programs"], "every expression over the whole integer range, in every execution mode",
  BOOT + "operands stay far from the limits of the 61-bit range, so a lost overflow test or a wrong rounding of negative operands is invisible.",
  ["src/BipsPl/arith_inl_c.c", "src/BipsPl/arith_inl.pl", "src/Pl2Wam/code_gen.pl", "src/EnginePl/wam_inst.h"],
  [("Pl_Fct_Fast_*/Pl_Fct_* with overflow tests", "src/BipsPl/arith_inl_c.c"), ("inline arithmetic code", "src/Pl2Wam/code_gen.pl")],
  ["value bound by is/2; outcome of comparisons; error term"])

p("P10", "What writeq, write_canonical and portray_clause write, read gives back",
  "For every ground or non-ground finite term and every operator table reachable by op/3, the text produced by writeq, write_canonical, write_term with quoted(true), or format ~q, followed by a full stop and read under the same operator table, is a variant of the original term ('$VAR'(N) counting as the variable it is shown as under numbervars(true)); under ignore_ops(true) the text denotes the term without any operator. The text of portray_clause is one clause that reads back as the term, up to the associativity of conjunction and a body true of a clause, as long as the control operators keep their predefined priorities. This covers every atom (including solo, symbolic, quoted, empty and escaped ones), signed numbers, operators as atoms and as operands, curly and list notation, and nested operators of every type and priority.",
  ["inputs", "histories"], "every term and every operator table",
  BOOT + "term output is checked only on the listings and .wam files that the compiler itself writes with the default operators.",
  ["src/BipsPl/write_supp.c", "src/BipsPl/parser_supp.c", "src/BipsPl/lexer_supp.c", "src/EnginePl/oper.c", "src/EnginePl/atom.c"],
  [("bracketing, quoting and spacing decisions", "src/BipsPl/write_supp.c"), ("tokeniser and operator-precedence parser", "src/BipsPl/lexer_supp.c, parser_supp.c")],
  ["the term read back"])

p("P11", "op/3 maintains the operator table and reading obeys it",
  "current_op/3 always reports exactly the operators given by the predefined table and the sequence of op/3 calls so far (last definition per atom and kind wins, priority 0 removes, an illegal call raises its error and changes nothing). A text is parsed into the one term that the table's types and priorities allow, taking associativity and argument priorities into account, or gives a syntax error when there is none (where the standard's grammar is ambiguous or refuses an operator as an atomic operand, a reader may choose among the readings); read_term reports its variables, variable names and singletons; read_token gives the tokens of the text; after a syntax error reading goes on with the next clause.",
  ["histories", "inputs"], "every history of op/3 calls and every token sequence of unary and binary operators, brackets and arguments",
  BOOT + "they use the default table plus a handful of declarations.",
  ["src/EnginePl/oper.c", "src/BipsPl/oper_c.c", "src/BipsPl/oper.pl", "src/BipsPl/parser_supp.c"],
  [("operator hash table", "src/EnginePl/oper.c"), ("checks of op/3", "src/BipsPl/oper_c.c"), ("priority climbing", "src/BipsPl/parser_supp.c")],
  ["current_op/3 answers; term read; error term"])

p("P12", "Atom and character built-ins are the relations they describe",
  "atom_length/2, atom_concat/3, sub_atom/5, char_code/2, atom_chars/2, atom_codes/2, number_chars/2, number_codes/2, number_atom/2 and lower_upper/2 succeed exactly for the tuples of their relation, enumerate all solutions once and in the documented order on backtracking, and raise the standard errors. Equal character sequences always denote the same atom.",
  ["inputs", "histories"], "every atom and every instantiation pattern",
  BOOT + "enumerating modes of sub_atom/5 and atom_concat/3 with mixed known arguments do not occur.",
  ["src/BipsPl/atom_c.c", "src/BipsPl/atom.pl", "src/EnginePl/atom.c", "src/EnginePl/hash_tbl.c"],
  [("sub_atom/5 and atom_concat/3 alternatives", "src/BipsPl/atom_c.c"), ("atom table", "src/EnginePl/atom.c")],
  ["answers in order; error term"])

p("P13", "List library predicates enumerate the same answers as their definitions",
  "append/3, member/2, memberchk/2, reverse/2, delete/3, select/3, subtract/3, permutation/2, prefix/2, suffix/2, sublist/2, last/2, flatten/2, length/2, nth/3, nth0/3, nth1/3, max_list/2, min_list/2, sum_list/2 and maplist/2..8 give, in every instantiation mode including partial lists, exactly the answers, in order, of their textbook definitions.",
  ["inputs"], "every combination of proper, partial and non-list arguments",
  BOOT + "many of these are hand-written in C with their own alternatives and are only used there in the common modes.",
  ["src/BipsPl/list.pl", "src/BipsPl/list_c.c"],
  [("append/member/reverse/length/nth in C with hand-made choice points", "src/BipsPl/list_c.c")],
  ["answers in order; error term"])

p("P14", "Streams deliver and record exactly the characters, positions and modes",
  "For every history of open, close, get/peek/unget/put of characters, codes and bytes, end-of-stream tests, seek/set_stream_position, current and aliased streams, mirrors and property queries, each operation returns what a stream model of the source's contents prescribes: the same items in order, the end-of-file behaviour of the chosen eof_action, exact character/line/column counts and positions, the contents of written sinks, and the standard error for wrong direction, type, closed or past-end streams.",
  ["histories"], "every history of stream operations on several simultaneously open text and binary files and constant-term streams",
  BOOT + "files are read and written straight through.",
  ["src/BipsPl/stream_supp.c", "src/BipsPl/stream_c.c", "src/BipsPl/char_io_c.c", "src/BipsPl/stream.pl", "src/BipsPl/char_io.pl"],
  [("push-back buffers, position counters, eof state", "src/BipsPl/stream_supp.c"), ("stream table and aliases", "src/BipsPl/stream_supp.c")],
  ["result or error of every operation; contents of files"])

p("P15", "FD constraints: labeling gives exactly the solutions",
  "For any set of arithmetic constraints (#=, #\\=, #<, #=<, #>, #>= and their full-AC forms over +, -, *, //, rem, /, **, min, max, dist, quot_rem) and domain constraints over finite-domain variables with bounded domains, posted in any order and interleaved with unifications, enumerating the variables yields every assignment that satisfies all the constraints, exactly once, and nothing else (within the documented limits: no intermediate value above fd_max_integer, no domain with holes above vector_max).",
  ["inputs", "programs", "histories"], "every constraint set, every posting order, every labeling order",
  "The FD examples are a few closed puzzles with constraints of one shape and compare one printed solution.",
  ["src/BipsFD/fd_math.pl", "src/BipsFD/fd_math_c.c", "src/BipsFD/fd_math_fd.fd", "src/BipsFD/math_supp.c", "src/EngineFD/fd_inst.c", "src/EngineFD/fd_range.c", "src/EngineFD/fd_unify.fd"],
  [("linear normalisation of expressions", "src/BipsFD/math_supp.c"), ("indexical constraints", "src/BipsFD/fd_math_fd.fd"), ("propagation queue and tell", "src/EngineFD/fd_inst.c"), ("range algebra", "src/EngineFD/fd_range.c")],
  ["solutions enumerated"])

p("P16", "FD domains only shrink, keep every solution, and are restored on backtracking",
  "After any sequence of constraint posts, unifications and queries, the domain reported for each finite-domain variable contains every value the variable takes in some solution of the constraints posted so far, is contained in its earlier domain, and fd_min, fd_max, fd_size and fd_dom agree with one another. Failing back, cutting or leaving through an exception restores exactly the domains and constraints of the choice point, and a variable whose domain is reduced to one value is that integer.",
  ["histories", "inputs"], "every history of posts, domain reductions (interval and sparse), choice points and backtracks",
  "The FD examples never look at domains and never compare them after backtracking.",
  ["src/EngineFD/fd_inst.c", "src/EngineFD/fd_range.c", "src/EngineFD/fd_hook_range.h", "src/BipsFD/fd_infos_c.c", "src/BipsFD/fd_values_c.c", "src/EngineFD/fd_unify.fd"],
  [("value trail of domains and constraint chains", "src/EngineFD/fd_inst.c"), ("interval and bit-vector ranges", "src/EngineFD/fd_range.c")],
  ["fd_dom/2, fd_min/2, fd_max/2, fd_size/2 after each step"])

p("P17", "FD reified, boolean and symbolic constraints mean what they say",
  "#<=>, #==>, #\\/, #/\\, ##, #\\ , their negated forms over reified arithmetic constraints, fd_reified_in/4, fd_cardinality/2,3, fd_at_least_one/1, fd_at_most_one/1, fd_only_one/1, fd_all_different/1, fd_element/3, fd_element_var/3, fd_atmost/3, fd_atleast/3, fd_exactly/3, fd_relation/2, fd_relationc/2, fd_prime/1 and fd_not_prime/1 admit exactly the assignments that satisfy their definition, in any combination with other constraints.",
  ["inputs", "programs"], "every boolean formula over reified constraints and every argument of the symbolic constraints",
  "The boolean examples use one shape of clause; reified negations, implications and most symbolic constraints are not tested at all.",
  ["src/BipsFD/fd_bool.pl", "src/BipsFD/fd_bool_c.c", "src/BipsFD/fd_bool_fd.fd", "src/BipsFD/fd_symbolic_c.c", "src/BipsFD/fd_symbolic_fd.fd", "src/BipsFD/fd_prime_c.c"],
  [("boolean simplification and reification", "src/BipsFD/fd_bool_c.c"), ("symbolic constraints", "src/BipsFD/fd_symbolic_c.c")],
  ["solutions enumerated"])

p("P18", "FD labeling options only change the order; optimisation finds the optimum",
  "fd_labeling/2 with any variable_method, value_method and reorder options, and fd_labelingff, enumerate the same set of solutions as plain labeling, each exactly once, in the order the method prescribes for statically determined choices; fd_minimize/2 and fd_maximize/2 end with a solution whose objective value is the true optimum, failing exactly when there is none.",
  ["inputs", "configurations"], "every constraint set, option combination and objective",
  "One puzzle uses the ff method and one minimises; no other option combination is run.",
  ["src/BipsFD/fd_values.pl", "src/BipsFD/fd_values_c.c", "src/BipsFD/fd_optim.pl"],
  [("variable and value selection", "src/BipsFD/fd_values_c.c"), ("branch and bound by restart", "src/BipsFD/fd_optim.pl")],
  ["solutions in order; optimum"])

p("P19", "C code calling Prolog and called by Prolog sees exact solutions and clean state",
  "A query opened from C delivers the goal's solutions one by one in order, then failure or the exception; closing it with recover undoes every binding made since it was opened, with cut keeps the bindings of the current solution and removes the alternatives, with keep leaves its alternatives to Prolog, and queries nest without disturbing each other. A foreign predicate receives and returns its arguments as declared, and a non-deterministic one is re-entered once per retry with its own saved state until it says it has finished.",
  ["histories", "programs"], "every history of nested query open/next/close operations and every mix of foreign argument modes",
  "Six fixed C examples run one foreign predicate each; query closing modes and nesting are not tested.",
  ["src/BipsPl/foreign_supp.c", "src/BipsPl/foreign.pl", "src/EnginePl/engine.c", "src/EnginePl/gprolog.h", "src/Wam2Ma/wam2ma.c"],
  [("query stack", "src/BipsPl/foreign_supp.c Pl_Query_*"), ("argument conversion and retry of foreign predicates", "src/BipsPl/foreign_supp.c")],
  ["results returned to C and to Prolog"])

p("P20", "Loading a program obeys directives, conditions, multifile and reloading rules",
  "Loading a source file defines exactly the clauses whose enclosing conditional-compilation branches are selected, in source order, runs its directives and initialization goals at the documented times, honours dynamic, discontiguous, multifile, include and op directives, and replaces the previous definitions of its (non-multifile) predicates. Loading it again gives the same database as loading it once, and the clauses other files contributed to a multifile predicate are kept. A program linked from natively compiled files starts with the database the same clauses and directives define, runs the system directives in link order and the user ones in reverse order, and is refused when two files define a predicate that they do not both declare multifile alike; an exception no one catches ends the directive that raised it and nothing else.",
  ["programs", "histories"], "every sequence of loads of every arrangement of clauses, directives and nested conditions",
  BOOT + "each file is loaded once, and nested conditional compilation with elif/else never occurs.",
  ["src/BipsPl/consult.pl", "src/BipsPl/consult_c.c", "src/Pl2Wam/read_file.pl", "src/BipsPl/bc_supp.c", "src/BipsPl/dynam_supp.c", "src/EnginePl/pred.c", "src/EnginePl/unit_ctor.c", "src/BipsPl/throw_c.c"],
  [("reading, conditional compilation and directives", "src/Pl2Wam/read_file.pl"), ("byte-code loading and redefinition", "src/BipsPl/bc_supp.c, consult.pl")],
  ["answers and outputs after loading; messages"])

p("P21", "Grammar rules recognise and generate exactly their language",
  "A program written with -->/2 (non-terminals with arguments, terminal lists and strings, push-back, {}/1, !, disjunction, if-then-else, \\+ and call//N) relates through phrase/2,3 exactly the input and rest lists, in the order, that the grammar's definition prescribes, whether rules are compiled, consulted or expanded and asserted.",
  ["programs", "inputs"], "every grammar, input list and mode (recognition, generation, partial input)",
  "No test of the repository runs a grammar other than one fixed parser.",
  ["src/BipsPl/expand_c.c", "src/BipsPl/expand.pl", "src/Pl2Wam/read_file.pl"],
  [("rule translation", "src/BipsPl/expand_c.c, expand.pl"), ("phrase/2,3", "src/BipsPl/expand.pl")],
  ["answers of phrase/2,3"])

p("P22", "The debugger reports the procedure-box events of the execution",
  "With tracing on, the ports shown for a program (call, exit, redo, fail, exception) are exactly those of the procedure box model for its execution, in order, each with the right goal instance, invocation number and depth; spying and leashing change only which events are shown or prompted for, and debugging never changes the answers or side effects of the program.",
  ["programs", "histories"], "every program and every sequence of debugger settings",
  "The test suite never turns the debugger on.",
  ["src/BipsPl/debugger.pl", "src/BipsPl/debugger_c.c", "src/BipsPl/call.pl"],
  [("ports around each call", "src/BipsPl/debugger.pl")],
  ["trace lines; answers"])

p("P23", "The line editor returns the edited line",
  "For every sequence of editing keys (insertion, deletion, motion by character and word, kill and yank, transposition, case change, history navigation and search, completion excluded) on a terminal, the line handed to the reader is the one obtained by applying the documented effect of each key to the text and cursor in turn, and the screen shows that text.",
  ["histories"], "every key sequence",
  "The line editor is never run by the tests (there is no terminal).",
  ["src/Linedit/linedit.c", "src/Linedit/terminal.c"],
  [("edit loop, history ring, kill buffer", "src/Linedit/linedit.c Pl_LE_FGets")],
  ["line read by the program; screen contents"])

p("P24", "Prolog flags, unknown procedures and predicate properties stay consistent",
  "current_prolog_flag/2 reports the value last set by an accepted set_prolog_flag/2 call, an illegal call raises the standard error and changes nothing, and the flags' effects follow their value: unknown procedures raise, warn or fail, double_quotes and back_quotes decide how quoted text is read, and char_conversion applies only while enabled. current_predicate/1 and predicate_property/2 describe exactly the predicates defined at that moment.",
  ["histories", "configurations"], "every history of flag changes, definitions and removals interleaved with reads, calls and queries",
  BOOT + "they run under the default flags.",
  ["src/BipsPl/flag_supp.c", "src/BipsPl/flag_c.c", "src/BipsPl/pred_c.c", "src/BipsPl/pred.pl", "src/BipsPl/lexer_supp.c", "src/EnginePl/pred.c"],
  [("flag table with type and check", "src/BipsPl/flag_supp.c"), ("unknown procedure handling", "src/BipsPl/error_supp.c Pl_Unknown_Pred_Error")],
  ["answers; errors; terms read"])

p("P25", "format/2,3 lays out text and columns as specified",
  "For every format string made of literal text and the directives ~w ~q ~p ~a ~d ~D ~s ~c ~r ~R ~e/~f/~g with integers, ~i ~* ~` ~t ~| ~+ ~n and ~~, and every argument list, the text written is the one the directive definitions give, with column stops and fill distributed as documented, or the format error is raised when arguments are missing, superfluous or of the wrong type.",
  ["inputs"], "every sequence of directives, numeric arguments and argument lists",
  BOOT + "only simple ~w and ~d formats occur.",
  ["src/BipsPl/format_c.c", "src/BipsPl/format.pl"],
  [("directive interpreter and column buffer", "src/BipsPl/format_c.c")],
  ["text written; error term"])

def main():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
main()
