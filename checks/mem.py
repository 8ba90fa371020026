"""The in-memory backend: transitions, update, claim, enqueue, prune, query, notification, locks."""
from .core import *

SELF = SYM("self")
ID = SYM("id")
ERRV = SYM("error")
NEXT = SYM("next")

END = {"complete": ("Complete", "completed_at"), "cancelled": ("Cancelled", "cancelled_at"), "discarded": ("Discarded", "discarded_at")}
RUNNABLE = ("Scheduled", "Retryable")
BERR = "rexecutor::backend::BackendError"


def status_in(*vs):
    def f(facts, old, v):
        x = variant_lit(v)
        if x is None:
            return None if is_opaque(v) else False
        return x in vs
    f.text = "status " + "/".join(vs)
    f.absent = lambda facts, old, field: _status_known(facts, old, vs)
    return f


def _status_known(facts, old, vs):
    s = facts.get(mkdisc(fld(old, "status"), "rexecutor::job::JobStatus"))
    return isinstance(s, frozenset) and s <= set(vs)


def some_now(facts, old, v):
    x = some(v)
    return None if x is None and is_opaque(v) else (x is not None and is_now(x))


some_now.text = "Some(now)"


def now_(facts, old, v):
    return is_now(v)


now_.text = "now"


def none_(facts, old, v):
    return is_none(v)


none_.text = "None"


def _none_absent(facts, old, field):
    s = facts.get(mkdisc(fld(old, field), "std::option::Option"))
    return s == frozenset(("None",))


none_.absent = _none_absent


def eq_to(t, text):
    def f(facts, old, v):
        return same(facts, v, t)
    f.text = text
    f.absent = lambda facts, old, field: same(facts, fld(old, field), t) is True
    return f


def plus(field, k):
    def f(facts, old, v):
        return same(facts, v, ladd(fld(old, field), INT(k)))
    f.text = f"{field} {k:+d}"
    return f


def appended(facts, old, v):
    """errors with exactly the given error appended"""
    e0 = fld(old, "errors")
    if v.op == "push" and v.a[0] is e0:
        x = v.a[1]
    elif v.op == "ext" and v.a[0] is e0 and v.a[1].op == "arr" and len(v.a[1].a[0]) == 1:
        x = v.a[1].a[0][0]
    else:
        return None if is_opaque(v) else False
    if x.op != "adt":
        return None if is_opaque(x) else False
    d = dict(x.a[2])
    rs = [same(facts, d["attempt"], fld(old, "attempt")), same(facts, d["error_type"], fld(ERRV, "error_type")),
          same(facts, d["details"], fld(ERRV, "message")), is_now(d["recorded_at"])]
    return False if False in rs else None if None in rs else True


appended.text = "the given error appended with the current attempt number and time"

# operation -> (arguments after self, required writes)
TRANSITIONS = {
    "mark_job_complete": ([ID], {"status": status_in("Complete"), "completed_at": some_now}),
    "mark_job_cancelled": ([ID, ERRV], {"status": status_in("Cancelled"), "cancelled_at": some_now, "errors": appended}),
    "mark_job_discarded": ([ID, ERRV], {"status": status_in("Discarded"), "discarded_at": some_now, "errors": appended}),
    "mark_job_retryable": ([ID, NEXT, ERRV], {"status": status_in(*RUNNABLE), "scheduled_at": eq_to(NEXT, "the given time"), "errors": appended}),
    "mark_job_snoozed": ([ID, NEXT], {"status": status_in(*RUNNABLE), "scheduled_at": eq_to(NEXT, "the given time"), "attempt": plus("attempt", -1)}),
    "rerun_job": ([ID], {"status": status_in(*RUNNABLE), "scheduled_at": now_, "max_attempts": plus("max_attempts", 1),
                         "completed_at": none_, "cancelled_at": none_, "discarded_at": none_}),
}
JOBARG = SYM("job")
UPDATE = {f: eq_to(fld(JOBARG, f), "the given value") for f in ("data", "metadata", "max_attempts", "scheduled_at", "priority", "tags")}


def trans_paths(ctx, op):
    k = ctx.method(MEM, op, BACKEND)
    if k is None:
        return None, []
    args = [SELF, JOBARG] if op == "update_job" else [SELF] + TRANSITIONS[op][0]
    return k, ctx.run(k, args)


def addressed(store, facts, root, idt):
    """is the written element known to carry the addressed id?"""
    old = mk("elem", root.a[0], root.a[1])
    g = numeq(fld(store.job(old), "id"), idt)
    if g is TRUE:
        return True
    r = implied(facts, g)
    return r


def poison_on(events):
    return any(e.a[0] == "poison" for e in flat(events))


def check_writes(ctx, rule, where, store, p, idt, required, ignore=()):
    """the Ok path p changes exactly one job, the addressed one, in exactly the required fields"""
    cs = [c for c in commits(store, SELF, p.facts, p.events) if not c.pure]
    if len(cs) != 1:
        return ctx.check(rule, where, False if not cs else None, f"success path with {len(cs)} critical sections that change jobs (expected one)")
    c = cs[0]
    if c.data is not c.base:
        if is_opaque(c.data) or c.data.op not in ("push", "retained", "removed", "arr", "comp"):
            return ctx.unk(rule, where, f"the job collection as a whole becomes {short(c.data)}")
        return ctx.bad(rule, where, f"the set of stored jobs changes: {short(c.data)}")
    ws = c.writes
    if not ws:
        return ctx.bad(rule, where, "success without any change to a job")
    okall = True
    for w in ws:
        r, old, new, facts = w
        a = addressed(store, facts, r, idt)
        if a is not True:
            okall = False
            ctx.check(rule, where, None if a is None else False, f"writes a job not known to be the addressed one: {short(new)}")
            continue
        fw, other = field_writes(store, w)
        oj = store.job(old)
        for path, v in other:
            if path and path[0] in ignore:
                continue
            okall = False
            ctx.bad(rule, where, f"writes {'.'.join(path)} := {short(v)}")
        for f, v in fw.items():
            if f in required or f in ignore:
                continue
            if same(facts, v, fld(oj, f)) is True:
                continue
            okall = False
            ctx.check(rule, where, None if is_opaque(v) and False else False, f"also changes {f} := {short(v)}")
        for f, pred in required.items():
            if f in ignore:
                continue
            if f not in fw:
                ab = getattr(pred, "absent", None)
                if ab is not None and ab(facts, oj, f):
                    continue
                okall = False
                ctx.bad(rule, where, f"{f} is left unchanged (expected {pred.text})")
                continue
            r_ = pred(facts, oj, fw[f])
            if r_ is not True:
                okall = False
                ctx.check(rule, where, r_, f"{f} := {short(fw[f])} (expected {pred.text})")
    if okall:
        ctx.ok(rule, where)
    return okall


def transitions(ctx, fields=None, rule="mem-transition", ops=None):
    """every success path of every transition writes exactly its fields on the addressed job.
    fields: restrict the judgement to these job fields (others are ignored)"""
    store = Store(ctx.F)
    allf = {f[0] for f in ADTS[JOB]["v"][0]["f"]}
    for op, (args, req) in TRANSITIONS.items():
        if ops and op not in ops:
            continue

        def go(op=op, req=req):
            k, ps = trans_paths(ctx, op)
            if k is None:
                return
            n = 0
            ign = () if fields is None else tuple(allf - set(fields)) + tuple(store.keyp or ())
            for p in ps:
                if p.result != "Ok":
                    if p.kind == "ret" and p.result is None:
                        ctx.unk(rule, op, f"result {short(p.val)}")
                    continue
                n += 1
                check_writes(ctx, rule, "InMemoryBackend::" + op, store, p, ID, req, ign)
            ctx.check(rule + "-reachable", "InMemoryBackend::" + op, n > 0, "no success path")
        ctx.attempt(rule, "InMemoryBackend::" + op, go)


def update(ctx, rule="mem-update"):
    store = Store(ctx.F)

    def go():
        k, ps = trans_paths(ctx, "update_job")
        if k is None:
            return
        n = 0
        for p in ps:
            if p.result == "Ok":
                n += 1
                check_writes(ctx, rule, "InMemoryBackend::update_job", store, p, fld(JOBARG, "id"), UPDATE)
        ctx.check(rule + "-reachable", "InMemoryBackend::update_job", n > 0, "no success path")
    ctx.attempt(rule, "InMemoryBackend::update_job", go)


def not_found(ctx, rule="mem-not-found"):
    """absent id -> JobNotFound(id) and nothing changed; any other error only for a poisoned lock"""
    store = Store(ctx.F)
    for op in list(TRANSITIONS) + ["update_job"]:
        def go(op=op):
            k, ps = trans_paths(ctx, op)
            if k is None:
                return
            where = "InMemoryBackend::" + op
            idt = fld(JOBARG, "id") if op == "update_job" else ID
            nf = 0
            for p in ps:
                cs = [c for c in commits(store, SELF, p.facts, p.events) if not c.pure]
                if p.kind == "panic":
                    continue
                if p.kind != "ret" or p.result is None:
                    ctx.unk(rule, where, f"path ends with {p.kind} {short(p.val) if p.val is not None else ''}")
                    continue
                if p.result == "Ok":
                    ctx.check(rule, where, bool(cs), "reports success although no job was changed")
                    for c in cs:
                        for w in c.writes:
                            ctx.check(rule, where, addressed(store, w[3], w[0], idt), "reports success after changing a job not known to be the addressed one")
                    continue
                e = p.payload("Err")
                v = variant_of(e, p.facts, BERR)
                if v == "JobNotFound":
                    nf += 1
                    r = same(p.facts, fld(dc(e, "JobNotFound"), "0"), idt)
                    ctx.check(rule, where, r, f"not-found error names {short(fld(dc(e, 'JobNotFound'), '0'))}")
                    ctx.check(rule, where, not cs, "reports not-found after changing jobs")
                elif v is None:
                    ctx.unk(rule, where, f"error {short(e)}")
                else:
                    ctx.check(rule, where, poison_on(p.events), f"fails with {v} although no lock was poisoned")
            ctx.check(rule, where, nf > 0, "no path reports a missing job")
        ctx.attempt(rule, "InMemoryBackend::" + op, go)
