"""Constructors and chaining calls of the uniqueness criteria, of conflict replacement and of prune rules."""
from .api import *

UC = "rexecutor::job::uniqueness_criteria::UniquenessCriteria"
RP = "rexecutor::job::uniqueness_criteria::Replace"
PR = "rexecutor::pruner::Pruner"
PS = "rexecutor::pruner::PruneSpec"


def only_scheduled(v):
    return v.op == "arr" and len(v.a[0]) == 1 and variant_lit(v.a[0][0]) == "Scheduled"


def is_int(n):
    return lambda v: v is INT(n)


def fields(ctx, rule, where, ty, k, args, want):
    """every field of the result passes its test; fields without one keep their value"""
    for p in ctx.run(k, args, await_=False):
        if p.kind != "ret":
            ctx.bad(rule, where, f"ends with {p.kind}")
            continue
        for n in fields_of(ty):
            v = fld(p.val, n)
            if n in want:
                r = want[n](v)
            else:
                r = v is fld(S, n) or same(p.facts, v, fld(S, n))
            if r is False and is_opaque(v):
                r = None
            ctx.check(rule, where, bool(r) if r is not None else None, lambda: f"{n} becomes {short(v)}")


def key_terms(ctx):
    """the key two constructors derive from the same value"""
    out = {}
    for name, args in (("by_key", [X]), ("and_key", [S, X])):
        k = ctx.method(UC, name)
        if k:
            for p in ctx.run(k, args, await_=False):
                if p.kind == "ret":
                    out[name] = some(fld(p.val, "key"))
    return out


def criteria(ctx, rule="criteria-builder"):
    none = {"key": is_none, "executor": is_int(0), "duration": is_none, "statuses": only_scheduled, "on_conflict": lambda v: variant_lit(v) == "DoNothing"}
    hashed = lambda v: some(v) is not None and contains(some(v), lambda t: t is X) and not contains(some(v), lambda t: t is S)
    own = {
        "executor": ("executor", is_int(1), False), "within": ("duration", lambda v: some(v) is X, True),
        "statuses": ("statuses", lambda v: v is X, True), "key": ("key", hashed, True),
    }
    first = {"executor": "by_executor", "within": "within", "statuses": "by_statuses", "key": "by_key"}
    for n, (field, good, takes) in own.items():
        for name, args, want in ((first[n], [X] if takes else [], dict(none, **{field: good})), ("and_" + n, [S, X] if takes else [S], {field: good})):
            def go(name=name, args=args, want=want):
                k = ctx.method(UC, name)
                if k:
                    fields(ctx, rule, "UniquenessCriteria::" + name, UC, k, args, want)
            ctx.attempt(rule, "UniquenessCriteria::" + name, go)
    for name, args, good in (("on_conflict", [S, X], lambda v: variant_lit(v) == "Replace" and v.a[2][0][1] is X), ("on_conflict_do_nothing", [S], lambda v: variant_lit(v) == "DoNothing")):
        def go(name=name, args=args, good=good):
            k = ctx.method(UC, name)
            if k:
                fields(ctx, rule, "UniquenessCriteria::" + name, UC, k, args, {"on_conflict": good})
        ctx.attempt(rule, "UniquenessCriteria::" + name, go)

    def keys():
        t = key_terms(ctx)
        if len(t) == 2:
            a, b = t["by_key"], t["and_key"]
            ctx.check(rule, "UniquenessCriteria::and_key", a is b or (None if is_opaque(a) or is_opaque(b) else False), lambda: f"the same value gives the key {short(a)} or {short(b)} depending on the call used")
            for n, v in t.items():
                # the key is a hash of the value: narrowing it further makes different values collide
                u = v
                while u.op == "ncast":
                    if u.a[0] in INTBITS:
                        lo, hi = int_range(u.a[0])
                        ctx.check(rule, "UniquenessCriteria::" + n, hi - lo >= 2**64 - 1, f"the key is cut to {u.a[0]}")
                    u = u.a[2]
                ctx.check(rule, "UniquenessCriteria::" + n, not is_app(u, "hash32", "hash16", "hash8"), f"the key is a {u.a[1] if u.op == 'app' else ''} hash only".replace("  ", " "))
    ctx.attempt(rule, "UniquenessCriteria keys", keys)


def replace(ctx, rule="replace-builder"):
    flags = ["scheduled_at", "data", "metadata", "priority", "max_attempts"]
    for n in flags:
        want = {m: is_int(1 if m == n else 0) for m in flags}
        want["for_statuses"] = only_scheduled
        for name, args, w in ((n, [], want), ("and_" + n, [S], {n: is_int(1)})):
            def go(name=name, args=args, w=w):
                k = ctx.method(RP, name)
                if k:
                    fields(ctx, rule, "Replace::" + name, RP, k, args, w)
            ctx.attempt(rule, "Replace::" + name, go)

    def go():
        k = ctx.method(RP, "for_statuses")
        if k:
            fields(ctx, rule, "Replace::for_statuses", RP, k, [S, X], {"for_statuses": lambda v: v is X})
    ctx.attempt(rule, "Replace::for_statuses", go)


def unwrapped(v):
    while v.op == "adt" and len(v.a[2]) == 1 and v.a[0].startswith("rexecutor::pruner::"):
        v = v.a[2][0][1]
    return v


def pruners(ctx, rule="pruner-builder"):
    by = lambda var: lambda v: variant_lit(v) == var and strip_cast(v.a[2][0][1]) is X
    for name, var in (("max_age", "MaxAge"), ("max_length", "MaxLength")):
        def go(name=name, var=var):
            k = ctx.method(PR, name)
            if k:
                fields(ctx, rule, "Pruner::" + name, PR, k, [X, Y], {"status": lambda v: v is Y, "prune_by": by(var), "executors": lambda v: spec_of(ctx, v, "All") == ("Except", ())})
        ctx.attempt(rule, "Pruner::" + name, go)
    one = lambda v: unwrapped(v).op == "arr" and len(unwrapped(v).a[0]) == 1 and const("NAME")(unwrapped(v).a[0][0])
    for name in ("only", "except"):
        def go(name=name):
            k = ctx.method(PR, name)
            if k:
                fields(ctx, rule, "Pruner::" + name, PR, k, [S], {"executors": one})
        ctx.attempt(rule, "Pruner::" + name, go)
    for k in keys_of(ctx.F, PR, "and"):
        where = "Pruner::and" + (" after only" if "Only" in k else " after except" if "Except" in k else "")
        old = (fld(S, "executors"), fld(fld(S, "executors"), "0"))
        more = lambda v: unwrapped(v).op == "push" and unwrapped(v).a[0] in old and const("NAME")(unwrapped(v).a[1])
        ctx.attempt(rule, where, lambda: fields(ctx, rule, where, PR, k, [S], {"executors": more}))

    def conv():
        ks = keys_of(ctx.F, PS, "from", "std::convert::From")
        if not ks:
            raise Undecided("rules are not turned into specifications by From")
        for k in ks:
            ex = lambda v: v is fld(S, "executors") or contains(v, lambda t: t is fld(S, "executors"))
            fields(ctx, rule, "PruneSpec::from", PS, k, [S], {"executors": ex})
    ctx.attempt(rule, "PruneSpec::from", conv)
    for ty, want in (("All", ("Except", ())), ("Only", ("Only", None)), ("Except", ("Except", None))):
        def go(ty=ty, want=want):
            r = spec_of(ctx, S, ty)
            ctx.check(rule, f"{ty}::into_spec", None if r is None else r[0] == want[0] and (r[1] == () if want[1] == () else r[1] in (S, fld(S, "0"))), lambda: f"means {r[0]} of {short(r[1]) if isinstance(r[1], T) else r[1]}")
        ctx.attempt(rule, f"{ty}::into_spec", go)


def spec_of(ctx, v, ty):
    """the executors a marker value stands for"""
    ks = keys_of(ctx.F, "rexecutor::pruner::" + ty, "into_spec", "rexecutor::pruner::IntoSpec")
    if len(ks) != 1:
        return None
    ps = [p for p in ctx.run(ks[0], [v], await_=False) if p.kind == "ret"]
    if len(ps) != 1 or ps[0].val.op != "adt":
        return None
    inner = ps[0].val.a[2][0][1]
    return ps[0].val.a[1], () if inner.op == "arr" and not inner.a[0] else unwrapped(inner)
