"""The layers around the backends: builders, conversions, forwarding, the global backend, the executor API."""
from .core import *
from engine.models import INTBITS, int_range

S, X, Y, Z, BK = SYM("self"), SYM("x"), SYM("y"), SYM("z"), SYM("backend")
JB = "rexecutor::job::builder::JobBuilder"
EX = "rexecutor::executor::Executor"
GB = "rexecutor::global_backend::GlobalBackend"
REX = "rexecutor::Rexecutor"
RERR = "rexecutor::RexecutorError"


def is_app(t, *names):
    return t.op == "app" and t.a[0] in names


def arg(t, i=0):
    return t.a[1][i]


def const(name):
    return lambda t: t.op == "const" and t.a[0] == EX + "::" + name


def keys_of(F, ty, name, trait=None, traitfull=None):
    """every (unspecialised) definition of a method, for types with several impl blocks"""
    out = []
    for k, f in sorted(F.raw.items()):
        if f.get("name") != name or "{closure" in k or "promoted[" in k or "@" in k or "<[" in k or not f.get("local"):
            continue
        if f.get("trait") != trait or base(f.get("self") or "") != ty:
            continue
        if traitfull and not traitfull(f.get("traitfull") or ""):
            continue
        out.append(k)
    return out


# ---- C16 ------------------------------------------------------------------------------------------


def fields_of(path):
    return [f[0] for f in ADTS[path]["v"][0]["f"]]


def is_into(t, x):
    """x, or x turned into another type by a conversion that keeps it"""
    t = strip_cast(t)
    while t is not x and t.op == "app" and t.a[0] in ("into", "from", "to_string", "to_owned", "clone") and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t is x


def all_of(t, x):
    """a collection holding every element of x, converted, in order"""
    if is_into(t, x):
        return True
    if t.op == "comp":
        src, alts = t.a[0], t.a[1]
        if src is not x:
            return False if not is_opaque(t) else None
        if len(alts) != 1:
            return None
        cond, v = alts[0]
        if cond or t.a[2].a[0] != "iter" or t.a[3]:
            return False
        while v.op == "app" and v.a[0] in ("into", "from", "to_string", "to_owned", "clone"):
            v = v.a[1][0]
        return v.op == "elem" and v.a[0] is x
    if t.op in ("deduped", "truncated", "retained", "reversed", "inserted", "push", "ext"):
        return False
    if is_opaque(t) or contains(t, lambda y: y is x):
        return None
    return False


SETTERS = {
    # call -> (setting, test of the new value)
    "with_data": ("data", lambda v: some(v) is X),
    "with_metadata": ("metadata", lambda v: some(v) is X),
    "with_max_attempts": ("max_attempts", lambda v: some(v) is X),
    "schedule_at": ("scheduled_at", lambda v: v is X),
    "schedule_in": ("scheduled_at", lambda v: is_now_plus(v, X)),
    "add_tag": ("tags", lambda v: v.op == "push" and v.a[0] is fld(S, "tags") and is_into(v.a[1], X)
                or (v.op == "app" and v.a[0] == "push" and v.a[1][0] is fld(S, "tags") and is_into(v.a[1][1], X))),
    "with_tags": ("tags", lambda v: all_of(v, X)),
    "unique": ("uniqueness_criteria", lambda v: some(v) is X),
    "with_priority": ("priority", lambda v: v is X),
}


def is_now_plus(v, x):
    c, d = lparts(v)
    return c == 0 and d.get(x) == 1 and len(d) == 2 and any(is_now(k) and d[k] == 1 for k in d)


def builder(ctx):
    rule = "builder-setters"
    for name, (field, good) in SETTERS.items():
        ctx.attempt(rule, name, lambda: builder_call(ctx, rule, name, field, good))
    ctx.attempt("builder-defaults", "JobBuilder", lambda: builder_defaults(ctx))
    ctx.attempt("builder-enqueue", "JobBuilder", lambda: builder_enqueue(ctx))


def builder_call(ctx, rule, name, field, good):
    k = ctx.method(JB, name)
    if k is None:
        return
    names = [f for f in fields_of(JB) if not f.startswith("_")]
    if field not in names:
        raise Undecided(f"the builder has no setting {field}")
    for p in ctx.run(k, [S, X], await_=False):
        if p.kind != "ret":
            ctx.bad(rule, name, f"ends with {p.kind}")
            continue
        for n in names:
            v = fld(p.val, n)
            if n == field:
                r = good(v)
                if r is False and is_opaque(v):
                    r = None
                ctx.check(rule, name, r, lambda: f"{n} becomes {short(v)}")
            else:
                r = True if v is fld(S, n) else None if is_opaque(v) else same(p.facts, v, fld(S, n))
                ctx.check(rule, name, r, lambda: f"{n} is changed to {short(v)}")


def builder_defaults(ctx):
    rule = "builder-defaults"
    want = {
        "data": is_none, "metadata": is_none, "max_attempts": is_none, "uniqueness_criteria": is_none,
        "tags": lambda v: v.op in ("seq", "vec", "list") and not v.a[0] or show(v) in ("[]", "Vec::new()"),
        "priority": lambda v: v is INT(0), "scheduled_at": is_now,
    }
    for k in keys_of(ctx.F, JB, "default", "std::default::Default") + [method_key(ctx.F, EX, "builder")]:
        if k is None:
            ctx.bad(rule, "Executor::builder", "the operation no longer exists")
            continue
        where = "JobBuilder::default" if "Default" in k else "Executor::builder"
        for p in ctx.run(k, [], await_=False):
            if p.kind != "ret":
                ctx.bad(rule, where, f"ends with {p.kind}")
                continue
            for n in fields_of(JB):
                if n.startswith("_") or n not in want:
                    continue
                v = fld(p.val, n)
                ctx.check(rule, where, want[n](v) or (None if is_opaque(v) else False), lambda: f"{n} starts as {short(v)}")


def builder_enqueue(ctx):
    rule = "builder-enqueue"
    n = 0
    for name in ("enqueue", "enqueue_to_backend"):
        for k in keys_of(ctx.F, JB, name):
            n += 1
            where = name + (" without data" if "WithData" not in k else "")
            ctx.attempt(rule, where, lambda: enqueue_paths(ctx, rule, where, k, name))
    ctx.check(rule, "JobBuilder", n >= 2, "the enqueue operations no longer exist")


def enqueue_paths(ctx, rule, where, k, name):
    ok = False
    for p in ctx.run(k, [S] if name == "enqueue" else [S, BK]):
        if p.kind != "ret":
            ctx.bad(rule, where, f"ends with {p.kind}")
            continue
        calls = [e for e in p.events if e.a[0] == "await" and e.a[1].startswith("Backend::")]
        if not calls:
            continue
        ctx.check(rule, where, len(calls) == 1 and calls[0].a[1] == "Backend::enqueue", lambda: "the backend is asked for " + ", ".join(c.a[1] for c in calls))
        if p.result == "Ok":
            ok = True
        b, j = calls[0].a[2][0], calls[0].a[2][1]
        if name == "enqueue_to_backend":
            ctx.check(rule, where, b is BK, lambda: f"the job goes to {short(b)}")
        else:
            ctx.check(rule, where, is_app(b, "once"), lambda: f"the job goes to {short(b)}")
        job_fields(ctx, rule, where, p, j)
    ctx.check(rule, where, ok, "no path enqueues the job")


def job_fields(ctx, rule, where, p, j):
    def chk(n, good, what):
        v = fld(j, n)
        ctx.check(rule, where, good(v) or (None if is_opaque(v) else False), lambda: f"{what} handed to the backend is {short(v)}")
    chk("data", lambda v: is_json(v, fld(S, "data"), p.facts), "the data")
    chk("metadata", lambda v: is_json(v, fld(S, "metadata"), p.facts), "the metadata")
    chk("executor", const("NAME"), "the executor name")
    chk("tags", lambda v: all_of(v, fld(S, "tags")), "the tags")
    chk("priority", lambda v: strip_cast(v) is fld(S, "priority"), "the priority")
    chk("scheduled_at", lambda v: v is fld(S, "scheduled_at"), "the scheduled time")
    override(ctx, rule, where, p, fld(j, "max_attempts"), fld(S, "max_attempts"), const("MAX_ATTEMPTS"), "the maximum attempts", False)
    override(ctx, rule, where, p, fld(j, "uniqueness_criteria"), fld(S, "uniqueness_criteria"), const("UNIQUENESS_CRITERIA"), "the uniqueness criteria", True)


def is_json(v, x, facts):
    if is_app(v, "json"):
        y = arg(v)
        if y is x or some(y) is fld(dc(x, "Some"), "0"):
            return True
    # a missing value encodes to null
    d = variant_of(x, facts, "std::option::Option")
    if d == "None" and v.op == "adt" and v.a[1] == "Null":
        return True
    if d == "Some" and is_app(v, "json") and arg(v) is fld(dc(x, "Some"), "0"):
        return True
    if is_app(v, "json"):
        return same(facts, arg(v), x) is True
    return False


def override(ctx, rule, where, p, v, mine, dflt, what, opt):
    d = variant_of(mine, p.facts, "std::option::Option")
    inner = fld(dc(mine, "Some"), "0")
    if d == "Some":
        r = strip_cast(v) is inner or v is mine or (opt and some(v) is inner)
    elif d == "None":
        r = dflt(strip_cast(v))
    else:
        r = None if v is not mine and not dflt(v) else False
    if not r and is_opaque(v):
        r = None
    ctx.check(rule, where, r, lambda: f"{what} handed to the backend is {short(v)} when the builder's own setting is {d or 'not looked at'}")


# ---- C15: conversions -------------------------------------------------------------------------------


def conversions(ctx, rule="convert"):
    todo = [
        (JOB, "std::convert::TryFrom", "try_from", "job::Job<", "typed to stored"),
        ("rexecutor::job::Job", "std::convert::TryFrom", "try_from", JOB, "stored to typed"),
        (JOB, "std::convert::TryFrom", "try_from", "rexecutor_sqlx::types::Job", "row to stored"),
        ("rexecutor::job::JobError", "std::convert::From", "from", "rexecutor_sqlx::types::JobError", "row error to error"),
    ]
    for ty, trait, name, src, where in todo:
        ctx.attempt(rule, where, lambda: convert_one(ctx, rule, where, ty, trait, name, src))
    for a, b in (("rexecutor::job::JobStatus", "rexecutor_sqlx::types::JobStatus"), ("rexecutor::job::ErrorType", "rexecutor_sqlx::types::ErrorType")):
        for to, fr in ((a, b), (b, a)):
            where = f"{fr.split('::', 1)[0]} to {to.split('::', 1)[0]} {to.rsplit('::', 1)[1]}"
            ctx.attempt(rule, where, lambda: enum_map(ctx, rule, where, to, fr))
    ctx.attempt(rule, "JobId", lambda: jobid(ctx, rule))


def results(ctx, rule="result-from-error"):
    """C01: an error turned into a result is the failure carrying that error"""
    where = "ExecutionResult from an error"

    def go():
        ks = keys_of(ctx.F, "rexecutor::executor::ExecutionResult", "from", "std::convert::From", lambda tf: True)
        if not ks:
            raise Undecided("no conversion of an error")
        for k in ks:
            for p in ctx.run(k, [X], await_=False):
                v = p.val
                if p.kind != "ret" or v.op != "adt":
                    ctx.check(rule, where, False if p.kind == "panic" else None, f"ends with {p.kind} {short(v) if v is not None else ''}")
                    continue
                ctx.check(rule, where, v.a[1] == "Error", f"an error becomes {v.a[1]}")
                if v.a[1] == "Error":
                    e = fld(v, "error")
                    ctx.check(rule, where, True if e is X else None if contains(e, lambda t: t is X or is_opaque(t)) else False, f"carries {short(e)}")
    ctx.attempt(rule, where, go)


def convert_one(ctx, rule, where, ty, trait, name, src):
    ks = keys_of(ctx.F, ty, name, trait, lambda tf: src in tf)
    if not ks:
        # impls outside the type's crate carry a different self path
        raise Undecided("the conversion no longer exists under this name")
    for k in ks:
        oks = 0
        for p in ctx.run(k, [X], await_=False):
            if p.kind != "ret":
                ctx.bad(rule, where, f"ends with {p.kind}: {short(p.out.info) if p.out.info is not None and not isinstance(p.out.info, str) else p.out.info}")
                continue
            v = p.val
            if name == "try_from":
                if p.result != "Ok":
                    continue
                v = p.payload("Ok")
            oks += 1
            for n in fields_of(ty):
                carried(ctx, rule, where, p, n, fld(v, n), fld(X, n))
        ctx.check(rule, where, oks > 0, "the conversion never succeeds")


def carried(ctx, rule, where, p, n, v, x):
    if v is x:
        return ctx.ok(rule, where)
    if is_app(v, "json", "unjson") and arg(v) is x and n in ("data", "metadata"):
        return ctx.ok(rule, where)
    if v.op == "ncast":
        t, ok = v, True
        while t.op == "ncast":
            if t.a[0] in INTBITS and t.a[1] in INTBITS:
                lo, hi = int_range(t.a[0])
                a, b = int_range(t.a[1])
                if not (lo <= a and b <= hi):
                    inner = t.a[2]
                    fits = p.facts.get(mk("fits", inner, lo, hi)) == frozenset((1,)) or (
                        (lo <= a or implied(p.facts, numcmp("Ge", inner, INT(lo)))) and (b <= hi or implied(p.facts, numcmp("Le", inner, INT(hi)))))
                    ok = ok and bool(fits)
            t = t.a[-1]
        if t is x:
            return ctx.check(rule, where, ok, f"{n} is truncated")
    if v.op == "app" and v.a[0] in ("into", "from") and v.a[1][0] is x:
        return ctx.ok(rule, where)
    if n == "errors":
        # an element-wise conversion keeps every element
        r = all_of(v, x)
        if r or (v.op == "comp" and v.a[0] is x) or is_opaque(v):
            r = True if r else errors_carried(v, x, p.facts)
            return ctx.check(rule, where, r if r in (True, None) else False, lambda: f"{n} are not all carried over: {r}")
    s = same(p.facts, v, x)
    if s:
        return ctx.ok(rule, where)
    # an enum mapped variant by variant
    if v.op == "adt" and len(ADTS.get(v.a[0], {"v": ()})["v"]) > 1:
        ds = [next(iter(s_)) for a, s_ in p.facts.items() if a.op == "disc" and a.a[0] is x and isinstance(s_, frozenset) and len(s_) == 1]
        if ds:
            return ctx.check(rule, where, v.a[1] == ds[0], lambda: f"{n} {ds[0]} becomes {v.a[1]}")
    if is_opaque(v):
        return ctx.unk(rule, where, f"{n} is {short(v)}")
    ctx.bad(rule, where, f"{n} is filled with {short(v)}")


def errors_carried(v, x, facts):
    """every recorded error, with its content"""
    r = kept_all(v, x, facts)
    if r is not True:
        return r
    for _, y in v.a[1]:
        if y.op != "adt":
            return None if is_opaque(y) else "an error is replaced by " + short(y)
        for n, z in y.a[2]:
            t = z
            while t.op == "app" and t.a[0] in ("into", "from", "to_string", "to_owned", "clone") or t.op == "ncast":
                t = t.a[1][0] if t.op == "app" else t.a[-1]
            if t.op == "fld" and t.a[-1] != n:
                return f"{n} of a recorded error is filled with {short(z)}"
    return True


def enum_map(ctx, rule, where, to, fr):
    ks = keys_of(ctx.F, to, "from", "std::convert::From", lambda tf: fr in tf)
    if not ks:
        raise Undecided("the conversion no longer exists under this name")
    seen = {}
    for k in ks:
        for p in ctx.run(k, [X], await_=False):
            if p.kind != "ret":
                ctx.bad(rule, where, f"ends with {p.kind}")
                continue
            d = variant_of(X, p.facts, fr)
            v = p.val
            if d is None or v.op != "adt":
                ctx.unk(rule, where, f"{short(v)}")
                continue
            seen[d] = v.a[1]
            ctx.check(rule, where, v.a[1] == d, lambda: f"{d} becomes {v.a[1]}")
            for n, y in v.a[2]:
                ctx.check(rule, where, is_into(y, fld(dc(X, d), n)), lambda: f"the content of {d} becomes {short(y)}")
        ctx.check(rule, where, set(seen) == {x["n"] for x in ADTS[fr]["v"]} or None, "some variants not seen")


def jobid(ctx, rule):
    for to, fr in (("rexecutor::job::JobId", "i32"), ("i32", "rexecutor::job::JobId")):
        for k in keys_of(ctx.F, to, "from", "std::convert::From", lambda tf: f"<{fr}>" in tf):
            for p in ctx.run(k, [X], await_=False):
                v = p.val
                good = v is not None and (v is X or v is fld(X, "0") or (v.op == "adt" and v.a[2] and v.a[2][0][1] is X))
                ctx.check(rule, "JobId", p.kind == "ret" and (good or (None if is_opaque(v) else False)), lambda: f"the id becomes {short(v)}")


# ---- C26 ------------------------------------------------------------------------------------------


OPS = {
    "subscribe_ready_jobs": 1, "enqueue": 1, "mark_job_complete": 1, "mark_job_retryable": 3, "mark_job_discarded": 2,
    "mark_job_cancelled": 2, "mark_job_snoozed": 2, "prune_jobs": 1, "rerun_job": 1, "update_job": 1, "query": 1,
}
CONCRETE = (MEM, PG)


def forwarding(ctx, rule="forward"):
    impls = sorted({base(f.get("self") or "") for k, f in ctx.F.raw.items() if f.get("trait") == BACKEND and f.get("local")} - set(CONCRETE))
    impls = [i for i in impls if "Mock" not in i and i]
    if not impls:
        return ctx.bad(rule, "Backend", "no implementation forwards to an inner backend")
    for ty in impls:
        for op, n in OPS.items():
            where = op if len(impls) == 1 else f"{ty}::{op}"
            ctx.attempt(rule, where, lambda: forward_one(ctx, rule, where, ty, op, n))


def forward_one(ctx, rule, where, ty, op, n):
    k = method_key(ctx.F, ty, op, BACKEND)
    if k is None:
        return ctx.bad(rule, where, "the operation is not forwarded")
    args = [SYM(f"a{i}") for i in range(n)]
    try:
        ps = ctx.run(k, [S] + args)
    except Bail as e:
        if "recurs" in str(e).lower() or "depth" in str(e).lower():
            return ctx.bad(rule, where, "the operation calls itself on the pointer instead of the inner backend")
        raise
    for p in ps:
        if p.kind != "ret":
            ctx.bad(rule, where, f"ends with {p.kind}")
            continue
        evs = [e for e in flat(p.events) if e.a[0] == "await" and e.a[1].startswith("Backend::")]
        if contains(p.val, lambda t: t.op == "rec") and not evs:
            ctx.bad(rule, where, "the operation calls itself on the pointer instead of the inner backend")
            continue
        if len(evs) != 1:
            ctx.bad(rule, where, f"the inner backend is called {len(evs)} times")
            continue
        e = evs[0]
        ctx.check(rule, where, e.a[1] == "Backend::" + op, lambda: f"the inner backend is asked for {e.a[1]}")
        ctx.check(rule, where, e.a[2][0] is S, lambda: f"another backend is called: {short(e.a[2][0])}")
        for i, a in enumerate(args):
            g = e.a[2][i + 1] if i + 1 < len(e.a[2]) else None
            ctx.check(rule, where, g is a, lambda: f"argument {i + 1} becomes {short(g) if g is not None else 'nothing'}")
        r = p.val
        good = r is e.a[3]
        if not good:
            v = p.result
            good = v is not None and r.op == "adt" and r.a[2] and r.a[2][0][1] is fld(dc(e.a[3], v), "0")
            if not good and v == "Ok" and variant_of(e.a[3], p.facts, "std::result::Result") == "Ok" and op not in ("enqueue", "query", "subscribe_ready_jobs"):
                good = True
        ctx.check(rule, where, good or (None if is_opaque(r) and not contains(r, lambda t: t is e.a[3]) else False), lambda: f"the result is {short(r)}")


def global_same(ctx, rule="global-backend"):
    """what callers get is what was set, and it is set at most once"""
    ctx.attempt(rule, "GlobalBackend", lambda: _global(ctx, rule))


def _global(ctx, rule):
    k = method_key(ctx.F, GB, "as_ref")
    if k is None:
        raise Undecided("no GlobalBackend::as_ref")
    cell = None
    kinds = set()
    for p in ctx.run(k, [], await_=False):
        if p.kind != "ret":
            ctx.bad(rule, "GlobalBackend::as_ref", f"using the global backend before it is set ends with {p.kind}")
            continue
        kinds.add(p.result)
        if p.result == "Ok":
            v = p.payload("Ok")
            ctx.check(rule, "GlobalBackend::as_ref", is_app(v, "once") or (None if is_opaque(v) else False), lambda: f"it hands out {short(v)}")
            if is_app(v, "once"):
                cell = arg(v)
        elif p.result == "Err":
            e = p.payload("Err")
            ctx.check(rule, "GlobalBackend::as_ref", variant_lit(e) == "GlobalBackend", lambda: f"it fails with {short(e)}")
            ctx.check(rule, "GlobalBackend::as_ref", any(a.op == "ok" and s == frozenset((0,)) for a, s in p.facts.items()) or None, "it fails although a backend is set")
    if kinds and "Err" not in kinds:
        ctx.unk(rule, "GlobalBackend::as_ref", "it never fails")
    k = ctx.method(REX, "set_global_backend")
    if k is None:
        return
    where = "Rexecutor::set_global_backend"
    oks = 0
    for p in ctx.run(k, [S], await_=False):
        if p.kind != "ret":
            ctx.bad(rule, where, f"setting the global backend ends with {p.kind}")
            continue
        sets = [e for e in p.events if e.a[0] == "once_set"]
        other = [e for e in p.events if e.a[0] in ("once_take", "once_clear", "static_write")]
        for e in other:
            ctx.bad(rule, where, "the global backend can be replaced")
        for e in sets:
            ctx.check(rule, where, e.a[2] is fld(S, "backend"), lambda: f"the global backend becomes {short(e.a[2])}")
            if cell is not None:
                ctx.check(rule, where, e.a[1] is cell, "the backend is stored where it is not looked up")
        failed = [a for a, s in p.facts.items() if a.op == "ok" and s == frozenset((0,)) and "once" in str(a.a[0])]
        if p.result == "Ok":
            oks += 1
            ctx.check(rule, where, len(sets) == 1, "success is reported although no backend was set")
            ctx.check(rule, where, not failed, "success is reported although another backend was already set")
            v = p.payload("Ok")
            for n in ("backend", "cancellation_token"):
                ctx.check(rule, where, fld(v, n) is fld(S, n) or (None if is_opaque(fld(v, n)) else False), lambda: f"the returned instance has another {n}: {short(fld(v, n))}")
        elif p.result == "Err":
            e = p.payload("Err")
            ctx.check(rule, where, variant_lit(e) == "GlobalBackend", lambda: f"it fails with {short(e)}")
            if sets and not failed:
                ctx.bad(rule, where, "an error is reported although the backend was set")
    ctx.check(rule, where, oks > 0, "it never succeeds")


# ---- C24, C14: the executor API ----------------------------------------------------------------------


API = {
    # operation -> (arguments, backend call)
    "cancel_job": ([X, Y], "mark_job_cancelled"),
    "rerun_job": ([X], "rerun_job"),
    "query_jobs": ([X], "query"),
    "update_job": ([X], "update_job"),
}


def equality(ctx, rule="equality"):
    """the comparisons of the library's own types that every lookup rests on are comparisons of their values"""
    JID, JS = "rexecutor::job::JobId", "rexecutor::job::JobStatus"
    a, b = SYM("a"), SYM("b")
    num = [
        ("JobId == JobId", [k for k in ctx.F.by_path if k.startswith(f"<{JID} as std::cmp::PartialEq") and k.endswith(">::eq") and "<i32>" not in k]),
        ("JobId == i32", [k for k in ctx.F.by_path if k == f"<{JID} as std::cmp::PartialEq<i32>>::eq"]),
        ("i32 == JobId", [k for k in ctx.F.by_path if k.endswith("::eq") and f"PartialEq<{JID}> for i32" in k]),
    ]
    for where, ks in num:
        for k in ks:
            ctx.attempt(rule, where, lambda: eq_one(ctx, rule, where, k, a, b, formula.of_bool(numeq(a, b))))
    for k in ctx.F.by_path:
        if k == f"<{JS} as std::cmp::PartialEq>::eq":
            for v in STATUSES:
                for w in STATUSES:
                    ctx.attempt(rule, f"JobStatus {v} == {w}", lambda: eq_one(ctx, rule, f"JobStatus {v} == {w}", k, ADT(JS, v, ()), ADT(JS, w, ()), [frozenset()] if v == w else []))


def eq_one(ctx, rule, where, k, a, b, want):
    got = []
    for p in ctx.run(k, [a, b], await_=False):
        if p.kind != "ret":
            return ctx.bad(rule, where, f"ends with {p.kind}")
        if contains(p.val, lambda t: t.op in ("res", "unk")):
            return ctx.unk(rule, where, f"result {short(p.val)}")
        base = frozenset(p.facts.items())
        got += formula.conj_and([base], formula.of_bool(p.val))
    ok, w = formula.equiv(got, want)
    ctx.check(rule, where, ok, lambda: "compares as " + ("equal" if not want else "different or equal against the values") + (": " + formula.show_asg(w) if w else ""))


def api_errors(ctx, rule="api-errors"):
    for name, (args, op) in API.items():
        for suffix in ("", "_on_backend"):
            where = f"Executor::{name}{suffix}"
            ctx.attempt(rule, where, lambda: api_one(ctx, rule, where, method_key(ctx.F, EX, name + suffix), args + ([BK] if suffix else []), op, bool(suffix)))
    for name in ("enqueue", "enqueue_to_backend"):
        for k in keys_of(ctx.F, JB, name):
            where = f"JobBuilder::{name}" + ("" if "WithData" in k else " without data")
            ctx.attempt(rule, where, lambda: api_one(ctx, rule, where, k, [S] if name == "enqueue" else [S, BK], "enqueue", name != "enqueue"))


def api_one(ctx, rule, where, k, args, op, given):
    if k is None:
        return ctx.bad("anchor", where, "the public operation no longer exists")
    for p in ctx.run(k, args):
        if p.kind != "ret":
            ctx.bad(rule, where, f"ends with {p.kind}: {short(p.out.info) if isinstance(p.out.info, T) else p.out.info}")
            continue
        for e in p.events:
            if e.a[0] in ("detach", "spawn"):
                ctx.bad(rule, where, "the operation is left to a background task, whose failure nobody sees")
        calls = [e for e in p.events if e.a[0] == "await" and e.a[1].startswith("Backend::")]
        failed = None
        for a, s in p.facts.items():
            if s == frozenset((0,)) and a.op == "ok":
                failed = ("enc" if a.a[0] in ("to_value", "from_value") else "global", a)
            if s == frozenset((1,)) and a.op == "any" and contains(a, lambda t: t.op == "ok" and t.a[0] in ("from_value", "to_value")):
                failed = ("enc", a)
            if a.op == "disc" and s == frozenset(("Err",)) and a.a[0].op == "rec":
                failed = ("enc", a)
            if s == frozenset((1,)) and a.op == "any" and contains(a.a[2], lambda t: t.op == "disc" and t.a[0].op == "rec"):
                failed = ("enc", a)
            if a.op == "disc" and s == frozenset(("Err",)) and a.a[0].op == "res" and str(a.a[0].a[0]).startswith("Backend::"):
                failed = ("backend", a.a[0])
        if failed:
            kind, t = failed
            if p.result != "Err":
                what = {"enc": "an encoding or decoding failure", "global": "the missing global backend", "backend": "the backend's failure"}[kind]
                ctx.check(rule, where, False if p.result == "Ok" else None, f"{what} is turned into success")
                continue
            e = p.payload("Err")
            if kind == "backend":
                ctx.check(rule, where, variant_lit(e) == "BackendError" and e.a[2][0][1] is fld(dc(t, "Err"), "0") or (None if is_opaque(e) and e.op != "adt" else False), lambda: f"the backend's failure is reported as {short(e)}")
            elif kind == "global":
                ctx.check(rule, where, variant_lit(e) == "GlobalBackend", lambda: f"the missing global backend is reported as {short(e)}")
            else:
                ctx.check(rule, where, variant_lit(e) in ("EncodeError", "BackendError") or (None if e.op != "adt" else False), lambda: f"an encoding failure is reported as {short(e)}")
            continue
        if p.result == "Ok":
            done = [c for c in calls if c.a[1] == "Backend::" + op]
            ctx.check(rule, where, len(done) == 1, lambda: f"success is reported after {len(done)} calls of the backend's {op}")
            for c in done:
                b = c.a[2][0]
                ctx.check(rule, where, b is BK if given else is_app(b, "once"), lambda: f"another backend is asked: {short(b)}")
                if variant_of(c.a[3], p.facts, "std::result::Result") != "Ok":
                    ctx.bad(rule, where, "success is reported whatever the backend answered")
                if op in ("mark_job_cancelled", "rerun_job"):
                    ctx.check(rule, where, c.a[2][1] is X, lambda: f"another job is addressed: {short(c.a[2][1])}")
                if op == "query":
                    r = kept_all(p.payload("Ok"), fld(dc(c.a[3], "Ok"), "0"), p.facts)
                    ctx.check(rule, where, r if r in (True, None) else False, lambda: f"not every job found is in the answer: {r if r else short(p.payload('Ok'))}")
                    lost = [a for t in subterms(p.payload("Ok")) if t.op == "comp" for cond, _ in t.a[1] for a, s in cond if a.op == "ok" and a.a[0] == "from_value" and s == frozenset((0,))]
                    ctx.check(rule, where, not lost, lambda: f"a job that does not decode is returned as if it did: {short(lost[0])}")
                if op == "enqueue":
                    v = p.payload("Ok")
                    ctx.check(rule, where, v is fld(dc(c.a[3], "Ok"), "0") or (None if is_opaque(v) and not contains(v, lambda t: t is c.a[3]) else False), lambda: f"the id returned is {short(v)}")
        elif p.result == "Err":
            e = p.payload("Err")
            ok = any(a.op in ("any", "sgn", "fits") for a in p.facts)  # conversions of numbers, elements of a list
            ctx.check(rule, where, True if ok else None, lambda: f"an error {short(e)} without a failure")
        else:
            ctx.unk(rule, where, f"result {short(p.val)}")
        for c in calls:
            if variant_of(c.a[3], p.facts, "std::result::Result") is None and p.result == "Ok":
                ctx.bad(rule, where, f"the answer of {c.a[1]} is ignored")


def api_update(ctx, rule="api-update"):
    """the job handed to the backend's update is the caller's, field by field"""
    where = "Executor::update_job_on_backend"
    ctx.attempt(rule, where, lambda: _api_update(ctx, rule, where))


def _api_update(ctx, rule, where):
    k = method_key(ctx.F, EX, "update_job_on_backend")
    if k is None:
        return ctx.bad("anchor", where, "the public operation no longer exists")
    for p in ctx.run(k, [X, BK]):
        for e in p.events:
            if e.a[0] == "await" and e.a[1] == "Backend::update_job":
                j = e.a[2][1]
                for n in fields_of(JOB):
                    carried(ctx, rule, where, p, n, fld(j, n), fld(X, n))
            elif e.a[0] == "await" and e.a[1].startswith("Backend::"):
                ctx.bad(rule, where, f"updating a job also calls {e.a[1]}")
