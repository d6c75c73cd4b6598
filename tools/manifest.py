#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
CLAIMS = {
    "P01": ("TLA+ abstract machine (TLC) prescribes the events of generated programs; replayed in native, consulted, asserted and meta-called mode",
            "Exact agreement of every answer, output event and termination with the specification on every generated program; bounded to the generated programs."),
    "P02": ("TLA+ abstract machine (TLC) prescribes the answers of predicates with many clauses and mixed first arguments; replayed in native, consulted, asserted and meta-called mode",
            "Exact agreement on every answer sequence of the generated clause tables and calls (first arguments of all kinds, up to 70 clauses); bounded to the generated programs."),
    "P03": ("TLA+ abstract machine (TLC) prescribes the behaviour of programs with catch/throw and run-time errors; replayed in four execution modes",
            "Exact agreement on balls, recovery, undone bindings and later events of the generated programs."),
    "P04": ("TLA+ abstract machine (TLC) with a clause store under the logical update view prescribes histories of updates and scans; replayed in three modes",
            "Exact agreement of every scan, retract and final database of the generated histories, including databases large enough for erased clauses to be reclaimed during scans."),
    "P05": ("TLA+ abstract machine (TLC) with solution collection, grouping and ^/2 prescribes the results; replayed in four execution modes",
            "Exact agreement of the generated findall/bagof/setof/forall/countall goals; non-ground witnesses and orders between distinct variables are left open by the standard and not judged."),
    "P06": ("TLA+ model of global variables (elements, copies, links, arrays, growth, trailed entries) inside the abstract machine (TLC) prescribes every read and result; replayed in native and meta-called mode",
            "Exact agreement of every g_* call and every backtracking history generated; bounded to the generated programs."),
    "P07": ("TLA+ abstract machine (TLC) with the standard order as an operator prescribes comparisons and sorted lists; replayed in native and meta-called mode",
            "Exact agreement of every generated comparison and sort (all term kinds, lists up to 40 elements, destructive and copying variants); the order of distinct variables is implementation-dependent and not judged."),
    "P08": ("TLA+ abstract machine (TLC) with term construction built-ins as operators prescribes bindings, failures and errors; replayed in native and meta-called mode",
            "Exact agreement of every generated call of the term built-ins, including after backtracking; cyclic terms and the choice among several applicable errors are not judged."),
    "P10": ("TLA+ token and term grammar under an operator table (spec/Syntax.tla); TLC decides recorded texts and read-back terms of histories of definitions and writes (spec/SyntaxRun.tla)",
            "Every generated text denotes, by the grammar of the specification, the term it was written for, and the real reader gives that term back, under operator tables reached by generated op/3 histories."),
    "P11": ("TLA+ operator table, token grammar and term grammar (spec/Syntax.tla); TLC decides recorded histories of op/3, current_op/3, read_term and read_token (spec/SyntaxRun.tla)",
            "Exact operator tables and errors, exact tokens, and the one term or a syntax error wherever the strict grammar has exactly one reading; otherwise one of the readings of the lenient grammar."),
    "P12": ("TLA+ relations of the atom built-ins (spec/Atoms.tla) inside the abstract machine (TLC) prescribe answers, order and errors; replayed in native and meta-called mode",
            "Exact agreement of the generated calls on ASCII atoms in every instantiation pattern; number syntax beyond integers and the floats in use, and the choice among several applicable errors, are not judged."),
    "P13": ("TLA+ abstract machine (TLC) runs the textbook definitions of the list library; every answer sequence is replayed in native and meta-called mode",
            "Exact agreement of the answer sequences of the generated calls on proper, partial and improper lists; infinite enumerations are compared up to a bound."),
    "P14": ("TLA+ model of streams, files, aliases and mirrors (spec/Stream.tla); TLC decides recorded histories of the real stream built-ins (spec/StreamRun.tla)",
            "Every result, error, position, count and property row of the generated histories, and the bytes of every file, are among the outcomes of the specification, which leaves open only what the manual leaves open (choice among several applicable errors, buffered bytes not yet flushed, counters after repositioning a text stream)."),
    "P15": ("TLA+ model of constraint stores as sets of assignments (spec/Fd.tla); TLC decides recorded histories of the real solver (spec/FdRun.tla)",
            "The enumerated solutions of each generated history lie between the definite and the possible assignments of the specification, each once, over boxes of up to 25x25 values and 5 variables; overflowing intermediate values (documented as unchecked) are excluded."),
    "P16": ("TLA+ model of stores, domains and choice points (spec/FdRun.tla) decided by TLC on recorded histories of the real solver",
            "Every domain shown after every step is well formed, inside the previous one, keeps every solution, and comes back exactly on failure, exception and backtracking, in the generated histories."),
    "P17": ("TLA+ truth tables of reified, boolean and symbolic constraints (spec/Fd.tla); TLC decides recorded histories of the real solver (spec/FdRun.tla)",
            "The solutions of each generated history are those of the truth tables; reified relations over expressions without a value are left open."),
    "P18": ("TLA+ model of labeling orders and optima (spec/Fd.tla) decided by TLC on recorded histories of the real solver",
            "Same solutions under every generated option combination, in the order the methods determine (exact for standard orders, necessary conditions for dynamic ones), and exact optima."),
    "P09": ("TLA+ exact integers of any size (spec/Arith.tla) inside the abstract machine (TLC) prescribe values and errors of is/2, comparisons and succ/2; replayed in four execution modes",
            "Exact agreement of the generated expressions over boundary and random 61-bit operands, compiled and interpreted; float operands and the choice among several applicable errors are not judged."),
    "P21": ("TLA+ textbook translation of grammar rules (spec/Dcg.tla) run by the abstract machine (TLC); every answer sequence is replayed in four execution modes",
            "Exact agreement of the answers of phrase/2,3 and of direct calls on the generated grammars and inputs (recognition, partial and open lists), including translation errors."),
    "P25": ("TLA+ state machine that interprets control texts directive by directive over a layout state (spec/Format.tla, spec/FormatRun.tla); TLC decides recorded calls of format/2,3",
            "Exact agreement of the text written (every directive, C printf conversions, exact decimal rounding of floats, column boundaries and padding points) and of the error of the generated calls on every kind of sink; how much text precedes an error is not judged, and ~w ~q ~k ~p ~W are taken to write what write/1, writeq/1, ... write."),
    "P19": ("TLA+ abstract machine extended with queries opened from C as markers on the stack of choice points (spec/Machine.tla); TLC prescribes every event, replayed by foreign predicates that interpret scripts in C",
            "Exact agreement of every result of opening, advancing and closing queries (recover, cut, keep; nested; from recursive and non-deterministic foreign predicates), of the exceptions handed to C, of terms built and read in C and of the answers Prolog sees afterwards, in four execution modes; bindings left by a failed query that is not recovered are not observed."),
    "P20": ("TLA+ agenda machine over source files, conditional-compilation stack, include stack, predicate groups, directives and the predicate database (spec/Load.tla, spec/LoadRun.tla); TLC decides recorded histories of edits, loads, native links and dumps",
            "Exact agreement of every message, mark, result and database dump of generated histories (edited source files, nested includes and consults, reloads, natively compiled and linked programs, database changes in between) with the specification."),
    "P24": ("TLA+ state machine over the flag table, the character conversions, the operator table and the predicate table with clauses (spec/Flags.tla, spec/FlagsRun.tla, extending spec/SyntaxRun.tla); TLC decides recorded histories",
            "Exact agreement of every recorded result (flag changes and queries, conversions, reads, tokens, number conversions, unknown procedures, clause database operations, consulted files, current_predicate/1, predicate_property/2) with the specification along generated histories; flags without an effect observable in Prolog are checked for their value only."),
}
NA = {}
exec(open("tools/claims.py").read()) if os.path.exists("tools/claims.py") else None
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = dict(version=1, setup_cmd="python3 check.py setup",
         checks=[dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py %s --thorough" % p,
                      evidence_file="evidence/%s.json" % p, technique=CLAIMS[p][0],
                      level=CLAIMS[p][2] if len(CLAIMS[p]) > 2 else "model_checking", level_note=CLAIMS[p][1]) for p in props if p in CLAIMS],
         not_applicable=[dict(property=p, reason=NA.get(p, "check not built yet")) for p in props if p not in CLAIMS])
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "claims")
