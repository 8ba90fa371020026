"""Pruning in the in-memory backend: exactly the jobs the rule names are deleted."""
from .core import *
from .api import is_app
from .mem import SELF

P = "rexecutor::pruner::"
LIM, EXS = SYM("limit"), SYM("executors")
FINISHED = ("Complete", "Cancelled", "Discarded")
WHERE = "InMemoryBackend::prune_jobs"


def spec(status, by, ex):
    v = {"status": ADT("rexecutor::job::JobStatus", status, ()), "prune_by": ADT(P + "PruneBy", by, (("0", LIM),)),
         "executors": ADT(P + "Spec", ex, (("0", EXS),))}
    return ADT(P + "PruneSpec", "PruneSpec", [(f[0], v[f[0]]) for f in ADTS[P + "PruneSpec"]["v"][0]["f"]])


def matching(store, e, status, ex):
    bv = mk("bv", 77)
    j = store.job(e)
    m = mk("any", EXS, bv, frozenset([frozenset([(mkeq(fld(j, "executor"), mk("elem", EXS, bv)).a[0], frozenset((1,)))])]))
    d = [frozenset([(m, frozenset((1 if ex == "Only" else 0,)))])]
    return formula.conj_and(d, formula.of_bool(isin(mkdisc(fld(j, "status"), "rexecutor::job::JobStatus"), (status,))))


def keep_of(base, data):
    """(bound variable, DNF) describing which elements of base survive in data, or None"""
    if data is base:
        return mk("bv", 0), [frozenset()]
    if data.op == "retained":
        if data.a[0] is base:
            return data.a[1], list(data.a[2])
        k = keep_of(base, data.a[0])
        if k is None:
            return None
        return data.a[1], formula.conj_and([frozenset(subst(c, {k[0]: data.a[1]})) for c in k[1]], list(data.a[2]))
    if data.op == "comp" and data.a[0] is base and not data.a[3]:
        bv = data.a[4]
        if all(v is mk("elem", base, bv) for _, v in data.a[1]):
            return bv, [c for c, _ in data.a[1]]
    return None


def direction(order, src, store):
    """'asc' | 'desc' by scheduled time, or None"""
    if order.a[0] == "rev":
        d = direction(order.a[1], src, store)
        return {"asc": "desc", "desc": "asc"}.get(d)
    if order.a[0] != "cmp":
        return None
    ea, eb = mk("elem", src, mk("bv", "a")), mk("elem", src, mk("bv", "b"))
    sa, sb = fld(store.job(ea), "scheduled_at"), fld(store.job(eb), "scheduled_at")
    less = formula.of_bool(numcmp("Lt", sa, sb))
    more = formula.of_bool(numcmp("Gt", sa, sb))
    lt, eq = list(order.a[1]), list(order.a[2])
    i = formula.implies

    def never(f, g):
        return i(formula.conj_and(f, g), [])[0]
    if i(less, lt)[0] and never(more, lt) and never(more, eq):
        return "asc"
    if i(more, lt)[0] and never(less, lt) and never(less, eq):
        return "desc"
    return "other"


def rules(ctx, rule="mem-prune"):
    store = Store(ctx.F)
    lock = store.lock(SELF)
    for status in STATUSES:
        for by in ("MaxAge", "MaxLength"):
            for ex in ("Only", "Except"):
                where = f"{WHERE} {status}/{by}/{ex}"

                def go(status=status, by=by, ex=ex, where=where):
                    k = ctx.method(MEM, "prune_jobs", BACKEND)
                    if k is None:
                        return
                    n = 0
                    for p in ctx.run(k, [SELF, spec(status, by, ex)]):
                        if p.result != "Ok":
                            if p.kind == "ret" and p.result == "Err":
                                cs = [c for c in commits(store, SELF, p.facts, p.events) if not c.pure]
                                ctx.check(rule, where, not cs, "reports an error after deleting jobs")
                            continue
                        n += 1
                        one_path(ctx, rule, where, store, p, status, by, ex)
                    ctx.check(rule, where, n > 0, "no path prunes successfully")
                ctx.attempt(rule, where, go)


def untouched(store, p, status, by, ex):
    """a path that deletes nothing: has it established that no stored job is to be deleted?"""
    lock = store.lock(SELF)
    seen = {t for a in p.facts for t in subterms(a) if t.op == "data" and t.a[0] is lock}
    sure = True
    for base in seen:
        e = mk("elem", base, mk("bv", "u"))
        m = matching(store, e, status, ex)
        none = []
        for a, v in p.facts.items():
            if not contains(a, lambda t: t is base):
                continue
            if a.op == "any" and a.a[0] is base and v == frozenset((0,)):
                none = formula.conj_or(none, subst_dnf(formula.expand(list(a.a[2])), a.a[1], mk("bv", "u")))
                continue
            sure = None
            if by == "MaxLength" and a.op == "sgn":
                for X in subterms(a):
                    if is_app(X, "count") and X.a[1][0] is base:
                        n, which = X, subst_dnf(list(X.a[1][1].a[1]), X.a[1][1].a[0], mk("bv", "u"))
                    elif is_app(X, "len") and X.a[1][0].op == "comp" and X.a[1][0].a[0] is base and not X.a[1][0].a[3]:
                        n, which = X, subst_dnf([c for c, _ in X.a[1][0].a[1]], X.a[1][0].a[4], mk("bv", "u"))
                    else:
                        continue
                    if formula.implies(m, which)[0] and implied(p.facts, numcmp("Le", n, LIM)) is True:
                        return True
        drops = [m]
        if by == "MaxAge":
            s = fld(store.job(e), "scheduled_at")
            fin = status in FINISHED
            nows = sorted({x for f in none for x in subterms(f) if is_now(x)}, key=lambda t: t.uid)
            drops += [formula.conj_and(m, formula.of_bool(numcmp("Lt" if fin else "Gt", s, lsub(n, LIM) if fin else ladd(n, LIM)))) for n in nows]
        rs = [formula.implies(d, none)[0] for d in drops]
        if True in rs:
            return True
        if None in rs:
            sure = None
    if any(e.a[0] in ("loop", "unk", "callv", "each") for e in p.events):
        sure = None
    return False if sure else None


def one_path(ctx, rule, where, store, p, status, by, ex):
    cs = [c for c in commits(store, SELF, p.facts, p.events) if not c.pure]
    if len(cs) > 1:
        return ctx.unk(rule, where, "several critical sections change the jobs")
    if not cs:
        # nothing deleted on this path: must be impossible for a job to be named by the rule
        return ctx.check(rule, where, untouched(store, p, status, by, ex), "succeeds without deleting although jobs named by the rule may be stored")
    c = cs[0]
    for w in c.writes:
        ctx.bad(rule, where, f"pruning modifies a job: {short(w[2])}")
    kb = keep_of(c.base, c.data)
    if kb is None:
        return ctx.unk(rule, where, f"jobs become {short(c.data)}")
    bv, keep = kb
    e = mk("elem", c.base, bv)
    m = matching(store, e, status, ex)
    fin = status in FINISHED
    if by == "MaxAge":
        s = fld(store.job(e), "scheduled_at")
        best = None
        nows = sorted({x for f in keep for x in subterms(f) if is_now(x)}, key=lambda t: t.uid) or [APP("now", INT(0))]
        for now in nows:
            for op in (("Lt",) if fin else ("Gt",)):
                bound = lsub(now, LIM) if fin else ladd(now, LIM)
                drop = formula.conj_and(m, formula.of_bool(numcmp(op, s, bound)))
                want = formula.neg(formula.align([drop])[0])
                r, w = formula.equiv(keep, want)
                if best is None or r:
                    best = (r, w)
        return ctx.check(rule, where, best[0], lambda: "keeps or deletes the wrong job: " + formula.show_asg(best[1]))
    # by length: survivors described through a cut of the ordered matching jobs
    cuts = {a for f in formula.expand(keep) for a, _ in f if a.op == "any" and a.a[0].op == "comp" and a.a[0].a[0] is c.base}
    if len(cuts) != 1:
        return ctx.unk(rule, where, f"{len(cuts)} ordered selections decide which jobs are kept: {short(c.data)}")
    A = next(iter(cuts))
    cp = A.a[0]
    if len(cp.a[3]) != 1 or cp.a[3][0].a[0] not in ("skip", "take"):
        return ctx.unk(rule, where, f"selection {short(cp)} is not a plain cut")
    sh = cp.a[3][0]
    ctx.check(rule, where, same(p.facts, sh.a[1], LIM), f"cuts after {short(sh.a[1])} jobs instead of the limit")
    # the cut selects among exactly the matching jobs
    ce = mk("elem", c.base, cp.a[4])
    r, w = formula.equiv([x for x, _ in cp.a[1]], matching(store, ce, status, ex))
    ctx.check(rule, where, r, lambda: "the jobs counted against the limit are not the ones the rule names: " + formula.show_asg(w))
    d = direction(cp.a[2], c.base, store)
    want = "desc" if fin else "asc"
    ctx.check(rule, where, None if d is None else d == want, f"jobs are kept in {d} order of scheduled time, expected {want}")
    # membership: A says "this job is one of the cut ones" iff it identifies the job by its id (or itself)
    ids = fld(store.job(e), "id")
    inner = mk("elem", c.base, A.a[1])
    want_in = formula.conj_and(subst_dnf([x for x, _ in cp.a[1]], cp.a[4], A.a[1]), formula.of_bool(numeq(ids, fld(store.job(inner), "id"))))
    alts = [want_in, formula.of_bool(numeq(ids, fld(store.job(inner), "id")))]
    rs = [formula.equiv(list(A.a[2]), x)[0] for x in alts]
    if True not in rs:
        return ctx.unk(rule, where, f"membership in the cut is decided by {short(A)}")
    a1, a0 = [frozenset([(A, frozenset((1,)))])], [frozenset([(A, frozenset((0,)))])]
    nm = formula.neg(m)
    if sh.a[0] == "skip":
        want_keep = formula.conj_or(a0, nm)
    else:
        want_keep = formula.conj_or(a1, nm)
    # being in the cut implies being named by the rule
    extra = formula.conj_or(a0, m)
    r, w = formula.equiv(formula.expand(keep), want_keep, extra)
    ctx.check(rule, where, r, lambda: "keeps or deletes the wrong job: " + formula.show_asg(w))


def subst_dnf(d, a, b):
    return [frozenset(subst(c, {a: b})) for c in d]
