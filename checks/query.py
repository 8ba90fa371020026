"""Queries: their meaning in the in-memory backend, their translation, executor scoping, constructors."""
import itertools

from .core import *
from .mem import SELF

BQ = "rexecutor::backend::Query"
UQ = "rexecutor::job::query::Query"
WH = "rexecutor::job::query::Where"
NAME = None
X, Y = SYM("x"), SYM("y")
ONE, ZERO = frozenset((1,)), frozenset((0,))
LEAVES = ("ExecutorEqual", "DataEquals", "MetadataEquals", "IdEquals", "IdIn", "StatusEqual", "TagsAllOf", "TagsOneOf",
          "ScheduledAtBefore", "ScheduledAtAfter", "ScheduledAtEqual")


FRESH = itertools.count(20000)


def lit(b):
    return formula.of_bool(b)


def member(coll, f):
    bv = mk("bv", next(FRESH))
    return mk("any", coll, bv, frozenset(frozenset(c) for c in f(mk("elem", coll, bv))))


def den(q, j, user=False, depth=0):
    """DNF: does job j satisfy the query value q?  (user: a typed query whose data is compared encoded)"""
    q = strip_conv(q)
    if q.op != "adt":
        return [frozenset([(mk("qd", q, j), ONE)])]
    v = q.a[1]
    x = q.a[2][0][1] if q.a[2] else None
    enc = (lambda t: APP("json", t)) if user else (lambda t: t)
    if v == "Not":
        return formula.neg(den(x, j, user, depth + 1))
    if v in ("And", "Or"):
        return den_list(x, j, v, user, depth + 1)
    if v == "ExecutorEqual":
        return lit(mkeq(fld(j, "executor"), x))
    if v == "DataEquals":
        return lit(mkeq(fld(j, "data"), enc(x)))
    if v == "MetadataEquals":
        return lit(mkeq(fld(j, "metadata"), enc(x)))
    if v == "IdEquals":
        return lit(numeq(fld(j, "id"), x))
    if v == "IdIn":
        return [frozenset([(member(x, lambda i: lit(numeq(fld(j, "id"), i))), ONE)])]
    if v == "StatusEqual":
        return lit(mkeq(fld(j, "status"), x))
    if v in ("TagsAllOf", "TagsOneOf"):
        def has(t):
            m = member(fld(j, "tags"), lambda u: lit(mkeq(u, t)))
            return [frozenset([(m, ZERO if v == "TagsAllOf" else ONE)])]
        return [frozenset([(member(x, has), ZERO if v == "TagsAllOf" else ONE)])]
    if v == "ScheduledAtBefore":
        return lit(numcmp("Lt", fld(j, "scheduled_at"), x))
    if v == "ScheduledAtAfter":
        return lit(numcmp("Gt", fld(j, "scheduled_at"), x))
    if v == "ScheduledAtEqual":
        return lit(numeq(fld(j, "scheduled_at"), x))
    raise Undecided(f"unknown query form {v}")


def den_list(l, j, v, user, depth):
    l = strip_conv(l)
    if l.op == "arr":
        acc = [frozenset()] if v == "And" else []
        for x in l.a[0]:
            d = den(x, j, user, depth)
            acc = formula.conj_and(acc, d) if v == "And" else formula.conj_or(acc, d)
        return acc
    if l.op == "push":
        a, b = den_list(l.a[0], j, v, user, depth), den(l.a[1], j, user, depth)
        return formula.conj_and(a, b) if v == "And" else formula.conj_or(a, b)
    if l.op == "pushfront":
        a, b = den_list(l.a[0], j, v, user, depth), den(l.a[1], j, user, depth)
        return formula.conj_and(a, b) if v == "And" else formula.conj_or(a, b)
    want = ZERO if v == "And" else ONE
    if l.op == "comp" and not l.a[3]:
        src, bv = l.a[0], l.a[4]
        body = []
        for c, val in l.a[1]:
            c = frozenset((a, s) for a, s in c if not is_conv_ok(a, s))
            d = den(val, j, user, depth)
            if v == "And":
                d = formula.neg(d)
            body += formula.conj_and([c], d)
        return [frozenset([(mk("any", src, bv, frozenset(frozenset(c) for c in body)), want)])]
    if l.op in ("fld", "sym", "elem", "dc"):
        m = member(l, lambda x: (den(x, j, user, depth) if v == "Or" else formula.neg(den(x, j, user, depth))))
        return [frozenset([(m, want)])]
    raise Undecided(f"query list {short(l)}")


def is_conv(t):
    return t.op == "rec" and "try_from" in str(t.a[0])


def strip_conv(t):
    """rec(try_from, (x))@Ok.0 -> x: a converted sub-query means what the sub-query means (induction)"""
    if t.op == "fld" and t.a[1] == "0" and t.a[0].op == "dc" and t.a[0].a[1] == "Ok" and is_conv(t.a[0].a[0]):
        a = t.a[0].a[0].a[1]
        if len(a) == 1:
            return strip_conv(a[0])
    return t


def is_conv_ok(a, s):
    return a.op == "disc" and is_conv(a.a[0]) and s == frozenset(("Ok",))


def norm_rec(d, e, j):
    """recursive evaluation of a sub-query on element e -> its denotation atom"""
    def f(x):
        if x.op == "rec" and len(x.a[1]) == 2 and any(y is e or y is j for y in x.a[1]):
            sub = [y for y in x.a[1] if y is not e and y is not j]
            if len(sub) == 1:
                return mk("qd", sub[0], j)
        return None
    return [frozenset(rewrite(c, f)) for c in d]


def forms(tier):
    """query values to evaluate: every form on symbolic contents, and concrete nestings"""
    out = []
    for v in LEAVES:
        out.append((v, ADT(BQ, v, (("0", X),))))
    for s in STATUSES:
        out.append((f"StatusEqual({s})", ADT(BQ, "StatusEqual", (("0", ADT("rexecutor::job::JobStatus", s, ())),))))
    for v in ("Not", "And", "Or"):
        out.append((v, ADT(BQ, v, (("0", X),))))
    A = ADT(BQ, "IdEquals", (("0", X),))
    B = ADT(BQ, "ScheduledAtBefore", (("0", Y),))
    C = ADT(BQ, "StatusEqual", (("0", ADT("rexecutor::job::JobStatus", "Scheduled", ())),))
    D = ADT(BQ, "TagsOneOf", (("0", SYM("z")),))

    def n(q):
        return ADT(BQ, "Not", (("0", q),))

    def l(v, *qs):
        return ADT(BQ, v, (("0", mk("arr", tuple(qs))),))
    nest = [n(A), n(n(A)), l("And"), l("Or"), n(l("And")), n(l("Or")), l("And", A), l("Or", A), l("And", A, B), l("Or", A, B),
            l("And", l("Or", A, B), C), l("Or", l("And", A, B), C), l("And", n(l("Or", A, B)), C), l("Or", n(l("And", A, B)), n(C)),
            n(l("And", A, n(B))), n(l("Or", n(A), B)), l("And", A, B, C), l("Or", A, B, C), n(D), l("Or", D, A), l("And", l("Or"), A), l("Or", l("And"), A)]
    if tier == "thorough":
        import itertools
        base = [A, B, C]
        l1 = base + [n(x) for x in base]
        for v in ("And", "Or"):
            for x, y in itertools.product(l1, l1):
                nest.append(l(v, x, y))
        l2 = [l(v, x, y) for v in ("And", "Or") for x, y in ((A, B), (n(A), C))]
        for v in ("And", "Or"):
            for x in l2:
                for y in l1 + l2:
                    nest += [l(v, x, y), n(l(v, y, x)), l(v, n(x), y)]
    return out + [(short(q, 200), q) for q in nest]


def mem_query(ctx, rule="mem-query"):
    store = Store(ctx.F)
    for name, q in forms(ctx.tier):
        where = f"InMemoryBackend::query {name}"

        def go(q=q, where=where):
            k = ctx.method(MEM, "query", BACKEND)
            if k is None:
                return
            n = 0
            for p in ctx.run(k, [SELF, q]):
                if p.result != "Ok":
                    if p.result == "Err":
                        ctx.check(rule, where, any(e.a[0] == "poison" for e in p.events), "fails although no lock is poisoned")
                    continue
                n += 1
                r = p.payload("Ok")
                data = mk("data", store.lock(SELF), 0)
                inner, part = r, None
                while inner.op in ("comp", "truncated"):
                    part = part or (mk("shape", "take") if inner.op == "truncated" else next((x for x in inner.a[3] if x.a[0] != "rev"), None))
                    inner = inner.a[0]
                if part is not None and inner.op == "data" and inner.a[0] is store.lock(SELF):
                    ctx.bad(rule, where, f"only part of the matching jobs is returned: {short(part)}")
                    continue
                if r.op == "arr" and not r.a[0]:
                    bv, cond, vals = mk("bv", 0), [], []
                elif r is data and not store.jobp:
                    bv, cond, vals = mk("bv", 0), [frozenset()], []
                elif r.op == "comp" and r.a[0].op == "data" and r.a[0].a[0] is store.lock(SELF):
                    data = r.a[0]
                    bv, cond = r.a[4], [c for c, _ in r.a[1]]
                    vals = [v for _, v in r.a[1]]
                else:
                    ctx.unk(rule, where, f"result {short(r)}")
                    continue
                e = mk("elem", data, bv)
                j = store.job(e)
                for v in vals:
                    ctx.check(rule, where, v is j or None if is_opaque(v) else v is j, f"returns {short(v)} instead of the stored job")
                got = norm_rec(formula.expand(cond), e, j)
                want = den(q, j)
                ok, w = formula.equiv(got, want)
                if ok is False and any(a.op in OPAQUE or contains(a, lambda x: x.op == "rec") for c in formula.align([got])[0] for a, _ in c):
                    ok = None
                ctx.check(rule, where, ok, lambda: "wrong answer for a job with " + formula.show_asg(w))
            ctx.check(rule, where, n > 0, "no path answers the query")
        ctx.attempt(rule, where, go)


def u(v, x):
    return ADT(UQ, v, (("0", x),))


def user_forms():
    out = [(v, u(v, X)) for v in LEAVES if v != "ExecutorEqual"] + [(v, u(v, X)) for v in ("Not", "And", "Or")]
    A, B = u("IdEquals", X), u("ScheduledAtBefore", Y)

    def l(v, *qs):
        return u(v, mk("arr", tuple(qs)))
    for q in (l("And"), l("Or"), l("And", A, B), l("Or", A, B), u("Not", l("Or", A, B)), l("Or", l("And", A, B), u("Not", A)), u("Not", l("And"))):
        out.append((short(q, 160), q))
    return out


def scoped(ctx, rule="executor-scope"):
    """the query sent to the backend means: this executor's jobs, and the caller's query"""
    k = method_key(ctx.F, "rexecutor::executor::Executor", "query_jobs_on_backend")
    if k is None:
        return ctx.bad("anchor", "Executor::query_jobs_on_backend", "the public operation no longer exists")
    j = SYM("anyjob")
    for name, q in user_forms():
        where = f"Executor::query_jobs_on_backend {name}"

        def go(q=q, where=where):
            calls = 0
            for p in ctx.run(k, [q, SYM("backend")]):
                qs = [e for e in p.events if e.a[0] == "await" and e.a[1] == "Backend::query"]
                if len(qs) > 1:
                    ctx.bad(rule, where, "asks the backend more than once")
                if not qs:
                    if p.result == "Ok":
                        ctx.bad(rule, where, "answers without asking the backend")
                    continue
                calls += 1
                arg = qs[0].a[2][1]
                got = den(arg, j)
                want = formula.conj_and(lit(mkeq(fld(j, "executor"), executor_name(arg))), den(q, j, True))
                ok, w = formula.equiv(got, want)
                if ok is False and any(a.op in OPAQUE or contains(a, lambda x: x.op == "rec") for c in formula.align([got])[0] for a, _ in c):
                    ok = None
                ctx.check(rule, where, ok, lambda: "the backend is asked for the wrong set of jobs; differs for " + formula.show_asg(w))
                if p.result == "Ok":
                    check_all_converted(ctx, rule, where, p, qs[0])
            ctx.check(rule, where, calls > 0, "the backend is never asked")
        ctx.attempt(rule, where, go)


def executor_name(arg):
    for x in subterms(arg):
        if x.op == "const" and x.a[0] == "rexecutor::executor::Executor::NAME":
            return x
    return mk("const", "rexecutor::executor::Executor::NAME", ("Self",))


def check_all_converted(ctx, rule, where, p, ev):
    """every job the backend returned is in the answer"""
    res = fld(dc(ev.a[3], "Ok"), "0")
    v = p.payload("Ok")
    es = [e for e in p.events if e.a[0] == "each" and e.a[1] is res]
    if v.op == "comp" and v.a[0] is res:
        r = kept_all(v, res, p.facts)
        return ctx.check(rule, where, r if r in (True, None) else False, lambda: f"not every job the backend returned is in the answer: {r}")
    for e in es:
        if e.a[5]:
            return ctx.bad(rule, where, "only part of the jobs the backend returned is passed on")
        kinds = {s.a[0] for s in e.a[3]}
        if not kinds <= {"yield", "brk", "ret", "panic"}:
            return ctx.bad(rule, where, f"some jobs the backend returned are left out of the answer ({', '.join(sorted(kinds))})")
    if es:
        return ctx.ok(rule, where)
    ctx.unk(rule, where, f"answer {short(v)}")


CONSTRUCTORS = {
    "data_equals": "DataEquals", "metadata_equals": "MetadataEquals", "id_equals": "IdEquals", "id_in": "IdIn", "status_equals": "StatusEqual",
    "tagged_by_all_of": "TagsAllOf", "tagged_by_one_of": "TagsOneOf", "scheduled_at_equals": "ScheduledAtEqual",
    "scheduled_at_before": "ScheduledAtBefore", "scheduled_at_after": "ScheduledAtAfter",
}


def constructors(ctx, rule="query-constructor"):
    j = SYM("anyjob")
    A = SYM("a")

    def ret1(ps):
        r = [p for p in ps if p.kind == "ret"]
        return r

    def cmp_den(where, p, want):
        v = p.val
        if v.op == "adt" and v.a[0] == WH:
            v = v.a[2][0][1]
        ok, w = formula.equiv(den(v, j, True), want)
        ctx.check(rule, where, ok, lambda: f"builds {short(v)}; differs for " + formula.show_asg(w))

    for name, var in CONSTRUCTORS.items():
        def go(name=name, var=var):
            k = ctx.method(WH, name)
            if k:
                for p in ret1(ctx.run(k, [X], await_=False)):
                    cmp_den("Where::" + name, p, den(u(var, X), j, True))
        ctx.attempt(rule, "Where::" + name, go)
    for name, op in (("scheduled_at_older_than", "Lt"), ("scheduled_at_within_the_last", "Gt")):
        def go(name=name, op=op):
            k = ctx.method(WH, name)
            if k:
                for p in ret1(ctx.run(k, [X], await_=False)):
                    now = APP("now", INT(0))
                    cmp_den("Where::" + name, p, lit(numcmp(op, fld(j, "scheduled_at"), lsub(now, X))))
        ctx.attempt(rule, "Where::" + name, go)
    # combination: self and other are arbitrary queries, including ones already of the combined form
    lefts = [u("IdEquals", X), u("Not", X), u("And", X), u("Or", X)] + [u("And", mk("arr", (A,))), u("Or", mk("arr", (A,)))]
    rights = [u("ScheduledAtBefore", Y), u("And", Y), u("Or", Y), u("Not", Y)]
    for name in ("and", "or"):
        for l in lefts:
            for r in rights:
                where = f"Where::{name} on {short(l)} with {short(r)}"

                def go(name=name, l=l, r=r, where=where):
                    k = ctx.method(WH, name)
                    if not k:
                        return
                    f = formula.conj_and if name == "and" else formula.conj_or
                    for p in ret1(ctx.run(k, [l, r], await_=False)):
                        cmp_den(where, p, f(den(l, j, True), den(r, j, True)))
                ctx.attempt(rule, where, go)
    for l in lefts:
        def go(l=l):
            k = ctx.method(WH, "not", "std::ops::Not")
            if k:
                for p in ret1(ctx.run(k, [l], await_=False)):
                    cmp_den(f"Where::not on {short(l)}", p, formula.neg(den(l, j, True)))
        ctx.attempt(rule, "Where::not", go)
