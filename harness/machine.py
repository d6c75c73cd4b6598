"""Conformance of the implementation to the abstract machine (spec/Machine.tla).

A Test is a program, dynamic predicates and queries.  TLC runs the machine on them (MachineRun.tla) and prints the
behaviour the specification prescribes; the real system then runs the same queries in every execution mode and has
to produce the same events: solutions, output events, final failure, error or ball."""
import os, json, re, copy
import vlib
from vlib import log, CheckError
from plterm import *

MODES = ("native", "consult", "dynamic", "meta")
HERE = os.path.dirname(os.path.abspath(__file__))


class Test:
    def __init__(self, clauses=(), dyn=(), queries=(), dynkeys=(), tags=()):
        """clauses: Clause list (static); dyn: Clause list; dynkeys: (name, arity) declared dynamic;
        queries: (goal, [terms], max)."""
        self.clauses, self.dyn, self.queries = list(clauses), list(dyn), list(queries)
        self.dynkeys = sorted(set(dynkeys) | {key(c.h) for c in dyn})
        self.tags = tags
        self.modes = MODES

    def js(self):
        qs = []
        for g, vs, mx in self.queries:
            t = S("q", g, lst(vs))
            m = {v: V(i + 1) for i, v in enumerate(vars_of(t))}
            qs.append(dict(g=subst(g, m), vs=[subst(v, m) for v in vs], n=len(m), max=mx))
        return dict(prog=group(self.clauses), dyn=group(self.dyn, self.dynkeys), queries=qs)

    def text(self, tid, table):
        out, tab = [], []
        for n, a in self.dynkeys:
            out.append(":- dynamic(%s/%d)." % (qatom(n), a))
        for k in order(self.clauses) + order(self.dyn):
            for c in self.clauses + self.dyn:
                if key(c.h) == k:
                    out.append(c.text())
        for i, (g, vs, mx) in enumerate(self.queries):
            q = "q%d_%d" % (tid, i)
            vv = [V(v) for v in vars_of(S("q", g, lst(vs)))]
            head = S(q, lst(vv))
            out.append(text(head) + " :- " + btext(g) + ".")
            tab.append("%s(%d,%d,%s,%s,%d,%s,%s)." % (table, tid, i, text(head), text(lst(vs)), mx, "(" + btext(g) + ")", text(lst(vs))))
        return "\n".join(out) + "\n", "\n".join(tab) + "\n"


def program_text(tests, table, lo=0, hi=None):
    hi = len(tests) if hi is None else hi
    ts = [tests[i].text(i, table) for i in range(lo, hi)]
    return "".join(a for a, _ in ts) + "".join(b for _, b in ts)


def key(h):
    return (h[1], len(h[2]) if h[0] == "s" else 0)


def order(cs):
    ks = []
    for c in cs:
        if key(c.h) not in ks:
            ks.append(key(c.h))
    return ks


def group(cs, extra=()):
    ks = order(cs) + [k for k in extra if k not in order(cs)]
    return [[k[0], k[1], [c.js() for c in cs if key(c.h) == k]] for k in ks]


def floats_in(x, acc):
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == "f" and isinstance(x[1], str):
            acc.add(x[1])
        else:
            for y in x:
                floats_in(y, acc)
    elif isinstance(x, dict):
        for y in x.values():
            floats_in(y, acc)
    return acc


def chars_in(x, acc):
    if isinstance(x, str):
        acc.update(x)
    elif isinstance(x, (list, tuple)):
        for y in x:
            chars_in(y, acc)
    elif isinstance(x, dict):
        for y in x.values():
            chars_in(y, acc)
    return acc


def spec_run(check, tests, lib=(), module="MachineRun", timeout=600, limit=None):
    """Behaviours prescribed by the specification: list of {ph, why, out}."""
    p = os.path.join(vlib.workdir(), "tests-%d.json" % (len(os.listdir(vlib.workdir())),))
    js = [t.js() for t in tests]
    libjs = group(list(lib))
    fl = sorted(floats_in(js, set()) | floats_in(libjs, set()), key=float)
    ranks, r, prev = {}, 0, None
    for f in fl:
        if prev is None or float(f) != prev:
            r, prev = r + 1, float(f)
        ranks[f] = r
    ranks.setdefault("0.0", 0)
    chars = chars_in(js, set(chr(i) for i in range(32, 127)))
    data = dict(chr={c: ord(c) for c in chars}, floats=ranks, lib=libjs, tests=js)
    with open(p, "w") as f:
        json.dump(data, f)
    r = vlib.tlc(module, env=dict(TESTS=p), timeout=timeout)
    check.add_tlc(r)
    outs = vlib.tlc_strings(r.out, "OUT")
    if len(outs) != len(tests):
        import sys
        sys.stderr.write(r.out[-3000:])
        raise CheckError("the specification produced %d of %d behaviours" % (len(outs), len(tests)))
    return [outs[i + 1] for i in range(len(tests))]


def split_expected(out):
    qs = []
    for k, v in out:
        if k == "query":
            qs.append([])
        else:
            qs[-1].append([k, v] if k not in ("no", "stop") else [k])
    return qs


class Runner:
    """Runs the tests in the real system."""
    def __init__(self, src, tests, extra_pl="", objs=(), chunk=120):
        self.src, self.tests, self.d, self.objs = src, tests, vlib.workdir(), list(objs)
        self.extra, self.chunk = extra_pl, chunk
        self.exe = {}

    def prepare(self, modes=MODES):
        drv = os.path.join(self.d, "driver")
        jobs = []
        if any(m != "native" for m in modes):
            n = len(self.tests)
            k = max(vlib.NCPU, (n + self.chunk - 1) // self.chunk) if n >= 8 else 1
            self.parts = [(n * i // k, n * (i + 1) // k) for i in range(k)]
            for lo, hi in self.parts:
                with open(os.path.join(self.d, "tests%d.pl" % lo), "w") as f:
                    f.write(self.extra)
                    f.write(program_text(self.tests, "ct", lo, hi))
            jobs.append(([os.path.join(HERE, "pl", "driver.pl")], drv, ("consult", "dynamic", "meta")))
        if "native" in modes:
            n = 4 if len(self.tests) > 40 else 1
            for k in range(n):
                fn = os.path.join(self.d, "ntests%d.pl" % k)
                lo, hi = len(self.tests) * k // n, len(self.tests) * (k + 1) // n
                with open(fn, "w") as f:
                    f.write(self.extra)
                    f.write(program_text(self.tests, "nt", lo, hi))
                jobs.append(([os.path.join(HERE, "pl", "driver.pl"), fn], os.path.join(self.d, "native%d" % k), ("native", lo, hi)))
        errs = vlib.pmap(lambda j: (j, vlib.gplc(self.src, j[0] + self.objs, j[1], ["--no-top-level", "--no-singl-warn"])), jobs)
        self.exe = {"native": []}
        for j, e in errs:
            if e:
                return "gplc failed: " + e[-1500:]
            if j[2][0] == "native":
                self.exe["native"].append((j[2][1], j[2][2], j[1]))
            else:
                for m in j[2]:
                    self.exe[m] = j[1]
        return None

    def exec(self, mode, lo, hi, timeout):
        exe = self.exe[mode]
        if mode == "native":
            exe = [e for a, b, e in exe if a <= lo < b][0]
        part = [a for a, b in getattr(self, "parts", []) if a <= lo < b] or [0]
        env = vlib.plenv(self.src, TESTFILE=os.path.join(self.d, "tests%d.pl" % part[0]), TESTMODE=mode, TESTLO=str(lo), TESTHI=str(hi - 1))
        rc, out, err = vlib.run([exe], timeout=timeout, env=env, cwd=self.d)
        res, cur, done, loaderr = {}, None, False, None
        tail = []
        for line in out.decode("latin-1").split("\n"):
            if not line.startswith("{"):
                if line:
                    tail.append(line)
                continue
            try:
                o = json.loads(line)
            except ValueError:
                if cur is not None:
                    cur.append(["garbled", line[:300]])
                continue
            if "t" in o:
                cur = res.setdefault(o["t"], [])
                cur.append([])
            elif "done" in o:
                done = True
            elif "end" in o:
                pass
            elif o.get("k") == "load_error":
                loaderr = o
            elif cur:
                cur[-1].append([o["k"], o["v"]] if "v" in o else [o["k"]])
        info = (err.decode(errors="replace")[-300:] + " " + " ".join(tail[-3:]))[-400:] if not done else ""
        return res, done, rc, info, loaderr

    def run(self, mode, only=None, timeout=60):
        """All tests of a mode: {test index: [events per query]}; a crash or time-out is an event."""
        n = len(self.tests)
        if mode == "native":
            bounds = [(a, b) for a, b, _ in self.exe["native"]]
        else:
            bounds = self.parts
        def go(b):
            lo, hi = b
            out = {}
            fails = 0
            while lo < hi:
                res, done, rc, info, le = self.exec(mode, lo, hi, timeout)
                out.update(res)
                if le:
                    for i in range(lo, hi):
                        out.setdefault(i, [[["load_error", le["v"]]]])
                    return out
                if done:
                    return out
                last = max([i for i in res] or [lo])
                # the test that was running when the process died or hung: once more, alone
                res1, done1, rc1, info1, _ = self.exec(mode, last, last + 1, 20)
                if done1:
                    out[last] = res1.get(last, [])
                    if rc != rc1:
                        out[last].append([["died_in_batch", str(rc), info]])
                else:
                    ev = res1.get(last) or [[]]
                    ev[-1].append(["died", str(rc1), info1])
                    out[last] = ev
                fails += 1
                if fails > 6:
                    for i in range(last + 1, hi):
                        out.setdefault(i, None)      # not run: too many deaths already reported
                    return out
                lo = last + 1
            return out
        allres = {}
        for r in vlib.pmap(go, bounds):
            allres.update(r)
        return allres


def match(e, g):
    """The implementation's events match the specified ones ('$ctx' stands for any term)."""
    if e == g:
        return True
    if isinstance(e, list) and isinstance(g, list):
        if e == CTX:
            return True
        return len(e) == len(g) and all(match(x, y) for x, y in zip(e, g))
    return False


CTX = ["a", "$ctx"]


def describe(t, tid, mode, exp, got):
    for q in range(max(len(exp), len(got))):
        e = exp[q] if q < len(exp) else None
        g = got[q] if q < len(got) else None
        if not match(e, g):
            for i in range(max(len(e or []), len(g or []))):
                ei = e[i] if e and i < len(e) else None
                gi = g[i] if g and i < len(g) else None
                if not match(ei, gi):
                    def show(x):
                        if x is None:
                            return "nothing"
                        return x[0] + (" " + (text(x[1]) if x[0] in ("ev", "sol", "err", "ball", "load_error") and isinstance(x[1], list) else str(x[1:])) if len(x) > 1 else "")
                    return "[%s] query %d, event %d: specification %s, implementation %s\n%s" % (
                        mode, q, i + 1, show(ei), show(gi), "".join(t.text(tid, "t")))
    return "?"


def conform(check, tests, modes=MODES, lib=(), label="", extra_pl="", spec_timeout=600, cmp=None, src=None, run_timeout=60, objs=(), chunk=120):
    """Decides the tests; returns the number judged."""
    src = src or vlib.build()
    exp = spec_run(check, tests, lib, timeout=spec_timeout)
    log(label, "spec behaviours", len(exp))
    tests1, exps = [], []
    for i, e in enumerate(exp):
        qs = split_expected(e["out"])
        t = tests[i]
        if e["ph"] != "done":            # the queries before the first one that the specification leaves open
            check.count("undefined_" + re.sub(r"\W", "_", e["why"] or "x"))
            qs = qs[:-1]
            if not qs:
                continue
            t = copy.copy(t)
            t.queries = t.queries[:len(qs)]
        tests1.append(t)
        exps.append(qs)
    if not tests1:
        raise CheckError("no behaviour to replay")
    r = Runner(src, tests1, extra_pl, objs, chunk)
    e = r.prepare(modes)
    if e:
        check.violation("compile", "generated programs no longer compile: " + e, dict(error=e))
        return 0
    log(label, "prepared")
    bad = {}
    for mode in modes:
        res = r.run(mode, timeout=run_timeout)
        for i, t in enumerate(tests1):
            if mode not in t.modes:
                continue
            got = res.get(i, [])
            if got is None:
                continue
            check.count("traces_validated_against_impl")
            check.count("events_compared", sum(len(q) for q in exps[i]))
            if not match(exps[i], got):
                bad.setdefault(mode, []).append((i, got))
        log(label, mode, "done; mismatches", len(bad.get(mode, [])))
    for mode, l in bad.items():
        if not any(True for _ in l):
            continue
        second = None
        for i, got in l[:5]:
            res1, done1, rc1, info1, _ = r.exec(mode, i, i + 1, 20)
            alone = res1.get(i, [])
            if not done1:
                alone = (alone or [[]])
                alone[-1].append(["died", str(rc1), info1])
            if match(exps[i], alone):
                if second is None:
                    second = r.run(mode)
                got2 = second.get(i, [])
                if got2 is None or match(exps[i], got2):
                    log("a mismatch of test", i, mode, "did not repeat")
                    continue
                alone, note = got2, "(only after the preceding tests of the batch) "
            else:
                note = ""
            t = tests1[i]
            check.violation("%s:%s" % (mode, ",".join(t.tags) or label), note + describe(t, i, mode, exps[i], alone),
                            dict(mode=mode, program="".join(t.text(i, "t")), expected=exps[i], observed=alone))
    for i in list(range(0, len(tests1), max(1, len(tests1) // 3)))[:3]:
        check.sample(dict(program=tests1[i].text(i, "t")[0][:800], behaviour=str(exps[i])[:600]))
    return len(tests1)
