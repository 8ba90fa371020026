"""The enqueued-job assertion: client functions that use it in each of its forms, expanded and analysed with the current macro.

Each client function is compiled (never run) against the metadata of the current tree with the same extractor as the library;
its paths are followed as everywhere else.  The oracle is the meaning of the words in the assertion."""
import itertools
import json
import os
import shutil
import subprocess

from .core import *
from .api import is_app
from .query import den
from .witness import Compiler, env

HEAD = """#![allow(unused)]
#![recursion_limit = "512"]
use rexecutor::assert_enqueued;
use rexecutor::backend::Backend;
use rexecutor::prelude::*;
use std::{future::Future, pin::Pin};
pub mod names {
    use super::*;
    pub struct E;
    impl Executor for E {
        type Data = String;
        type Metadata = String;
        const NAME: &'static str = "named";
        fn execute<'t>(job: Job<String, String>) -> Pin<Box<dyn Future<Output = ExecutionResult> + Send + 't>> {
            Box::pin(async { ExecutionResult::Done })
        }
    }
}
use names::E;
"""
QT = "rexecutor::backend::Query"
BK, DD, MM, TG, JJ = SYM("backend"), SYM("d"), SYM("m"), SYM("t"), SYM("j")


def q(v, *x):
    return ADT(QT, v, tuple((str(i), y) for i, y in enumerate(x)))


# words of the assertion -> (text, the query they mean)
WORDS = {
    "with_data": ("with_data: d", q("DataEquals", APP("json", DD))),
    "with_metadata": ("with_metadata: m", q("MetadataEquals", APP("json", MM))),
    "tagged_with": ('tagged_with: ["t", "u"]', q("TagsAllOf", mk("arr", (STR("t"), STR("u"))))),
    "scheduled_at": ("scheduled_at: j.scheduled_at", q("ScheduledAtEqual", fld(JJ, "scheduled_at"))),
    "scheduled_after": ("scheduled_after: j.inserted_at", q("ScheduledAtAfter", fld(JJ, "inserted_at"))),
    "scheduled_before": ("scheduled_before: j.scheduled_at", q("ScheduledAtBefore", fld(JJ, "scheduled_at"))),
    "for_executor literal": ('for_executor: "lit"', q("ExecutorEqual", STR("lit"))),
    "for_executor type": ("for_executor: E", q("ExecutorEqual", STR("named"))),
    "for_executor path": ("for_executor: names::E", q("ExecutorEqual", STR("named"))),
}
HEADS = {
    "to": ("to: backend, ", None), "1 job, to": ("1 job, to: backend, ", None), "0 jobs, to": ("0 jobs, to: backend, ", 0),
    "1 jobs, to": ("1 jobs, to: backend, ", 1), "3 jobs, to": ("3 jobs, to: backend, ", 3),
    "global": ("", None), "1 job, global": ("1 job, ", None), "0 jobs, global": ("0 jobs, ", 0), "3 jobs, global": ("3 jobs, ", 3),
}


def programs():
    out = []
    n = 0

    def add(head, words, comma):
        nonlocal n
        h, count = HEADS[head]
        body = h + ", ".join(WORDS[w][0] for w in words) + ("," if comma else "")
        out.append((f"f{n}", f"{head} {' + '.join(words)}" + (" with a last comma" if comma else ""), body, head, count, [WORDS[w][1] for w in words]))
        n += 1

    for h in HEADS:
        for w in WORDS:
            for comma in (False, True):
                add(h, [w], comma)
        add(h, [w for w in WORDS if w != "for_executor path"][:7], False)
    for a in WORDS:
        for b in WORDS:
            if a != b and not ("for_executor" in a and "for_executor" in b):
                for comma in (False, True):
                    add("to", [a, b], comma)
    return out


def source(progs):
    s = HEAD
    for f, _, body, *_ in progs:
        s += f"pub async fn {f}<B: Backend + Sync>(backend: &B, d: &String, m: &String, t: &'static str, j: &rexecutor::backend::Job) {{\n    assert_enqueued!({body});\n}}\n"
    return s


def load(text, externs, name="probe"):
    """facts of a client crate, compiled (not run) against the current library with the same extractor"""
    work = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "work")
    c = Compiler(work)
    try:
        src = os.path.join(c.scratch, name + ".rs")
        with open(src, "w") as f:
            f.write(text)
        e = env()
        e["VP_FACTS_DIR"] = c.scratch
        e["VP_CRATES"] = name
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], capture_output=True, text=True, env=e).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        err = None
        for libs in itertools.product(*[c.find(x) for x in externs]):
            ext = [a for x, p in zip(externs, libs) for a in ("--extern", f"{x}={p}")]
            r = subprocess.run([os.path.join(work, "drv", "release", "vpdriver"), "rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", name,
                                "--emit=metadata", "-Cdebug-assertions=off", "--sysroot", sysroot, "--extern", "rexecutor=" + c.lib, *ext,
                                "-o", os.path.join(c.scratch, name + ".rmeta"), *c.args, src], capture_output=True, text=True, env=e)
            p = os.path.join(c.scratch, name + ".json")
            if r.returncode == 0 and os.path.exists(p):
                return json.load(open(p)), None
            if err is None or r.stderr.count("\nerror") < err.count("\nerror"):
                err = r.stderr
        return None, err or "no copy of a dependency"
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)


def assertion(ctx, rule="assertion"):
    ctx.attempt(rule, "client functions", lambda: _assertion(ctx, rule))


def _assertion(ctx, rule):
    progs = programs()
    j, err = load(source(progs), ("serde_json",))
    if j is None:
        first = next((l for l in err.splitlines() if l.startswith("error")), "")
        return ctx.bad(rule, "client functions", f"a documented form of the assertion does not compile: {first[:200]}")
    ctx.F.add("probe", j)
    for f, where, body, head, count, want in progs:
        ctx.attempt(rule, where, lambda: one(ctx, rule, where, "probe::" + f, head, count, want))


def count_of(facts, jobs, k):
    """can a path with these facts be taken when the answer holds k jobs?  None: cannot tell"""
    sure = True
    ln = APP("len", jobs)
    for a, s in facts.items():
        if not contains(a, lambda t: t is jobs):
            continue
        if a.op == "any" and a.a[0] is jobs and any(not c for c in a.a[2]):
            v = int(k > 0)
        elif a.op == "sgn":
            x = subst(a, {ln: INT(k)})
            if x.op == "sgn" and x.a[0].op == "int":
                v = (x.a[0].a[0] > 0) - (x.a[0].a[0] < 0)
            elif x.op == "int":
                v = x.a[0]
            else:
                sure = None
                continue
        elif a.op == "haskey" or a.op == "disc":
            if a.op == "disc" and a.a[0].op in ("res", "app") or a.op == "haskey":
                sure = None
            continue
        else:
            sure = None
            continue
        if v not in s:
            return False
    return sure


def one(ctx, rule, where, k, head, count, want):
    if k not in ctx.F.raw and k in ctx.F.by_path:
        k = ctx.F.by_path[k]
    passes, fails = [], []
    told = None
    for p in ctx.run(k, [BK, DD, MM, TG, JJ]):
        facts = p.facts
        # no backend, no answer or data that cannot be encoded: no verdict is due
        if any(s == frozenset((0,)) and a.op == "ok" for a, s in facts.items()):
            if p.kind == "ret":
                ctx.bad(rule, where, "passes although the question could not be asked")
            continue
        calls = [e for e in p.events if e.a[0] == "await" and e.a[1].startswith("Backend::")]
        for c in calls:
            if c.a[1] != "Backend::query":
                ctx.bad(rule, where, f"the assertion calls {c.a[1]}")
            b = c.a[2][0]
            ctx.check(rule, where, b is BK if "global" not in head else is_app(b, "once"), lambda: f"asks another backend: {short(b)}")
        if any(variant_of(c.a[3], facts, "std::result::Result") != "Ok" for c in calls):
            if p.kind == "ret":
                ctx.bad(rule, where, "passes although the backend did not answer")
            continue
        right = []
        for c in calls:
            jv = mk("elem", SYM("store"), SYM("some"))
            exp = [frozenset()]
            for w in want:
                exp = formula.conj_and(exp, den(w, jv))
            got = den(named(c.a[2][1]), jv)
            ok, _ = formula.equiv(got, exp)
            if ok is None:
                return ctx.unk(rule, where, "query not comparable")
            if ok:
                right.append(fld(dc(c.a[3], "Ok"), "0"))
        if not right:
            ctx.bad(rule, where, f"never asks for the jobs that satisfy all of its conditions: asks {'; '.join(short(c.a[2][1]) for c in calls)}")
            return
        (passes if p.kind == "ret" else fails).append((facts, right))
    ctx.check(rule, where, bool(passes), "cannot pass")
    for n in (0, 1, 2, 3, 4, 7):
        should = n == count if count is not None else (None if n > 1 else n == 1)
        if should is None:
            continue
        for kind, ps in ((True, passes), (False, fails)):
            if kind == should:
                continue
            r = [x for facts, right in ps for x in [max((count_of(facts, jobs, n) for jobs in right), key=lambda v: {False: 0, None: 1, True: 2}[v]) if len(right) > 1 else count_of(facts, right[0], n)]]
            v = False if True in r else None if None in r else True
            ctx.check(rule, where, v, lambda: f"{'passes' if kind else 'fails'} with {n} matching jobs stored")


def named(t):
    """names of the client's executors, which are known"""
    return rewrite(t, lambda x: STR("named") if x.op == "const" and str(x.a[0]).endswith("Executor::NAME") and "names::E" in str(x.a[1]) else None)


# ---- defaults -------------------------------------------------------------------------------------------

DEFAULTS = """#![allow(unused)]
use rexecutor::backoff::*;
use rexecutor::job::uniqueness_criteria::UniquenessCriteria;
use rexecutor::job::JobStatus;
use rexecutor::prelude::*;
use std::{future::Future, pin::Pin};
pub struct D;
impl Executor for D {
    type Data = String;
    type Metadata = String;
    const NAME: &'static str = "named";
    fn execute<'t>(job: Job<String, String>) -> Pin<Box<dyn Future<Output = ExecutionResult> + Send + 't>> {
        Box::pin(async { ExecutionResult::Done })
    }
}
pub fn all() -> [JobStatus; JobStatus::ALL.len()] { JobStatus::ALL }
pub fn concurrency() -> Option<usize> { <D as Executor>::MAX_CONCURRENCY }
pub fn blocking() -> bool { <D as Executor>::BLOCKING }
pub fn unique() -> Option<UniquenessCriteria<'static>> { <D as Executor>::UNIQUENESS_CRITERIA }
pub fn attempts() -> u16 { <D as Executor>::MAX_ATTEMPTS }
pub fn timeout(j: &Job<String, String>) -> Option<std::time::Duration> { D::timeout(j) }
pub fn backoff(j: &Job<String, String>) -> chrono::TimeDelta { D::backoff(j) }
pub fn documented(j: &Job<String, String>) -> chrono::TimeDelta {
    BackoffStrategy::exponential(chrono::TimeDelta::seconds(4)).with_max(chrono::TimeDelta::days(7)).with_jitter(Jitter::Relative(0.1)).backoff(j.attempt)
}
"""


def defaults(ctx, rule="defaults"):
    ctx.attempt(rule, "an executor that sets nothing", lambda: _defaults(ctx, rule))


def _defaults(ctx, rule):
    j, err = load(DEFAULTS, ("chrono",), "probed")
    if j is None:
        first = next((l for l in err.splitlines() if l.startswith("error")), "")
        return ctx.bad(rule, "an executor that sets nothing", f"an executor with only the required items does not compile: {first[:200]}")
    ctx.F.add("probed", j)

    def paths(n, *args):
        k = "probed::" + n
        return ctx.run(ctx.F.by_path.get(k, k), list(args), await_=False)

    def const(n, what, good, *args):
        def go():
            for p in paths(n, *args):
                v = p.val if p.kind == "ret" else None
                ctx.check(rule, what, good(v) if v is not None else False, lambda: f"is {short(v) if v is not None else p.kind}")
        ctx.attempt(rule, what, go)

    def known(v, want):
        return True if v is want else False if v.op in ("adt", "int") else None

    const("concurrency", "default MAX_CONCURRENCY", lambda v: known(v, OPT()))
    const("blocking", "default BLOCKING", lambda v: known(v, INT(0)))
    const("unique", "default UNIQUENESS_CRITERIA", lambda v: known(v, OPT()))
    const("attempts", "default MAX_ATTEMPTS", lambda v: v.a[0] > 0 if v.op == "int" else None)
    const("timeout", "default Executor::timeout", lambda v: known(v, OPT()), JJ)

    def statuses():
        for p in paths("all"):
            v = p.val
            if v.op != "arr" or not all(x.op == "adt" for x in v.a[0]):
                ctx.unk(rule, "JobStatus::ALL", f"is {short(v)}")
                continue
            for w in [x["n"] for x in ADTS["rexecutor::job::JobStatus"]["v"]]:
                n = sum(x.a[1] == w for x in v.a[0])
                ctx.check(rule, "JobStatus::ALL", n == 1, f"{w} is listed {n} times")
    ctx.attempt(rule, "JobStatus::ALL", statuses)

    def backoffs():
        where = "default Executor::backoff"
        got, want = {}, {}
        for n, d in (("backoff", got), ("documented", want)):
            for p in paths(n, JJ):
                d.setdefault((p.kind, p.val), []).append(frozenset(p.facts.items()))
        rs = [formula.equiv(got.get(k, []), want.get(k, []))[0] for k in got.keys() | want.keys()]
        if all(r is True for r in rs):
            return [ctx.ok(rule, where) for _ in want]
        if False not in rs:
            return ctx.unk(rule, where, "cases not comparable")
        for kind, val in got.keys() | want.keys():
            if val is not None and contains(val, lambda t: t.op in ("unk", "rec", "res", "lv") or is_app(t, "Strategy::backoff")):
                return ctx.unk(rule, where, f"is {short(val)}")
        extra = sorted((show(v) for k, v in got.keys() - want.keys() if v is not None), key=lambda x: (-len(x), x))
        ctx.bad(rule, where, f"differs from four seconds to the power of the attempt, at most seven days, with a tenth of jitter: {extra[0][:200] if extra else 'other cases'}")
    ctx.attempt(rule, "default Executor::backoff", backoffs)
