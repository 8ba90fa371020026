"""The background loops: shutdown (all of them), the cron scheduler and the pruner."""
from . import runner
from .core import *
from .runner import REX, SELF, own

TOKEN = fld(SELF, "cancellation_token")
SCHED, DATA, TZ, CONFIG = SYM("schedule"), SYM("data"), SYM("timezone"), SYM("config")
UTC = "Utc"

STARTERS = {
    "with_executor": [SELF],
    "with_cron_executor": [SELF, SCHED, DATA],
    "with_cron_executor_for_timezone": [SELF, SCHED, DATA, TZ],
    "with_job_pruner": [SELF, CONFIG],
}


class Task:
    def __init__(self, p, ev):
        self.p = p
        self.ev = ev
        self.subs = ev.a[3]

    def events(self):
        for s in self.subs:
            yield from own(s.a[2])


def start(ctx, name):
    k = ctx.method(REX, name)
    if k is None:
        return None, []
    ps = ctx.run(k, STARTERS[name], await_=False)
    return ps, [Task(p, e) for p in ps for e in p.events if e.a[0] == "spawn"]


def is_ticker(t):
    return any(e.a[0] in ("cron_next", "cron_end") for e in t.events())


def is_ready(t):
    return any(e.a[0] == "await" and e.a[1] == "Backend::subscribe_ready_jobs" for e in t.events())


def own_token(t):
    """the instance's token or a child of it (cancelled with it)"""
    if t is TOKEN:
        return True
    if t.op == "childtoken":
        return own_token(t.a[0])
    return False


def is_cancelled_fut(f):
    return f.op == "fut" and f.a[0] == "cancelled" and own_token(f.a[1][0])


class Iter:
    """one way around a ticking loop, or out of it"""

    def __init__(self, facts, events, end):
        self.facts = facts
        self.events = events
        self.end = end  # 'back' | 'ret' | 'panic' | …
        self.info = None
        self.ticks = [e for e in events if e.a[0] == "cron_next"]
        self.selects = [e for e in events if e.a[0] == "select"]


def signalled(it):
    """the way round on which the wait was ended by the shutdown of this instance"""
    return any(e.a[0] == "await" and e.a[1] == "cancelled" and own_token(e.a[2][0]) for e in it.events)


def tests_token(it):
    return any(a.op == "app" and "is_cancelled" in a.a[0] for a in it.facts)


def iterations(t):
    out = []
    for s in t.subs:
        base = dict(t.p.facts)
        base.update(s.a[1])
        evs = list(s.a[2])
        loops = [i for i, e in enumerate(evs) if e.a[0] == "loop" and any(x.a[0] in ("cron_next", "cron_end", "select") for tr in e.a[2] for x in tr.a[2])]
        if not loops:
            out.append(Iter(base, evs, s.a[0]))
            continue
        i = loops[-1]
        for tr in evs[i].a[2]:
            f = dict(t.p.facts)
            f.update(tr.a[1])
            out.append(Iter(f, list(tr.a[2]), "back"))
        rest = evs[i + 1:]
        it = Iter(base, rest, s.a[0])
        it.info = s.a[3]
        out.append(it)
    seen, res = set(), []
    for it in out:
        k = (tuple(it.events), it.end, tuple(sorted(((a.uid, tuple(sorted(map(str, r))) if isinstance(r, frozenset) else str(r)) for a, r in it.facts.items()))))
        if k not in seen:
            seen.add(k)
            res.append(it)
    return res


# ---- C17 ------------------------------------------------------------------------------------------


def shutdown(ctx, rule="shutdown-loop"):
    for name in STARTERS:
        ctx.attempt(rule, name, lambda: one_starter(ctx, rule, name))
    ctx.attempt("shutdown-signal", "graceful_shutdown", lambda: signals(ctx))
    ctx.attempt("shutdown-token", "Rexecutor", lambda: token_kept(ctx))


def one_starter(ctx, rule, name):
    ps, ts = start(ctx, name)
    if ps is None:
        return
    if not ts:
        return ctx.bad(rule, name, "no background task is started")
    for p in ps:
        ctx.check(rule, name, p.kind == "ret", f"starting ends with {p.kind}")
    n = 0
    for t in ts:
        if is_ready(t):
            n += 1
            ready_shutdown(ctx, rule, f"{name} job runner", t)
        elif is_ticker(t):
            n += 1
            tick_shutdown(ctx, rule, f"{name} scheduler", t)
    if n == 0:
        raise Undecided("no loop recognised in the background task")


def ready_shutdown(ctx, rule, where, t):
    loops = [(s, e) for s in t.subs for e in s.a[2] if e.a[0] == "sloop"]
    if not loops:
        sel = [e for e in t.events() if e.a[0] == "select" and any(is_cancelled_fut(f) for f in e.a[1])]
        if not any(e.a[0] in ("select", "snext") for e in t.events()):
            raise Undecided("the ready-job stream is not consumed by a stream combinator")
        if not sel:
            return ctx.bad(rule, where, "the job loop does not watch for shutdown")
        raise Undecided("the ready-job stream is consumed by a hand-written loop")
    for s, e in loops:
        stages = e.a[2]
        if not (e.a[1].op == "res" and e.a[1].a[0] == "Backend::subscribe_ready_jobs"):
            if contains(e.a[1], lambda y: y.op == "res" and y.a[0] == "Backend::subscribe_ready_jobs"):
                ctx.unk(rule, where, f"the ready-job stream goes through an adaptor that is not modelled: {short(e.a[1])}")
            continue
        tu = [st for st in stages if st.a[0] == "take_until"]
        good = any(is_cancelled_fut(st.a[1]) for st in tu)
        if not good:
            ctx.check(rule, where, False if not tu or all(st.a[1].op == "fut" for st in tu) else None,
                      "the job loop does not end when this instance is shut down" + (f" (it watches {short(tu[0].a[1])})" if tu else ""))
        else:
            ctx.ok(rule, where)
        for st in tu:
            if not is_cancelled_fut(st.a[1]) and good:
                ctx.bad(rule, where, f"the job loop also ends on {short(st.a[1])}")
        for st in stages:
            if st.a[0] in ("take", "take_while", "map_while", "scan", "skip_while", "try_take_while"):
                ctx.bad(rule, where, f"the job loop can end for another reason than shutdown: {st.a[0]}")
        ctx.check(rule, where, s.a[0] == "ret", f"the job loop ends with {s.a[0]}")
        # nothing may cut executions short
        for x in s.a[2]:
            if x.a[0] == "select" and any(f.op in ("fec", "cor") and contains(f, lambda y: y.op == "fec") or f.op == "fec" for f in x.a[1]):
                ctx.bad(rule, where, "the job loop races with something else, which abandons executions in flight")
            if x.a[0] == "timeout":
                ctx.bad(rule, where, "the job loop runs under a timeout")
        for sub in e.a[4]:
            for x in own(sub.a[2]):
                if x.a[0] == "select" and any(f.op == "fut" and f.a[0] == "cancelled" for f in x.a[1]):
                    ctx.bad(rule, where, "an execution in flight is raced with shutdown, which abandons it or its outcome")
                    break
                if x.a[0] == "cancel":
                    ctx.bad(rule, where, f"handling a job shuts the instance down ({short(x)})")
                    break
                if x.a[0] in ("abort",):
                    ctx.bad(rule, where, "an execution in flight is aborted")
                    break
        # who else stops the subscription
        for st in stages:
            ctx.ok(rule, where)


def tick_shutdown(ctx, rule, where, t):
    for it in iterations(t):
        if it.end == "panic":
            ctx.check(rule, where, True if any(e.a[0] == "cron_end" for e in it.events) else False, f"the loop can panic: {short(it.info) if hasattr(it, 'info') else ''}")
            continue
        if it.end == "back":
            if signalled(it):
                ctx.check(rule, where, tests_token(it), "the loop goes round again after the instance was shut down")
            elif any(is_cancelled_fut(f) for e in it.selects for f in e.a[1]):
                # the waiting for the tick itself must be under the select
                bad = long_wait(it)
                ctx.check(rule, where, bad is None, f"the loop waits for {bad} without watching for shutdown")
            elif any(e.a[0] in ("cron_next",) for e in it.events) or not it.events:
                ctx.bad(rule, where, "the loop can go round without watching for shutdown of this instance")
            else:
                ctx.bad(rule, where, "the loop can go round without watching for shutdown of this instance")
        elif it.end == "ret":
            if any(e.a[0] == "cron_end" for e in it.events):
                ctx.ok(rule, where)
                continue
            c = [e for e in it.events if e.a[0] == "await" and e.a[1] == "cancelled" and own_token(e.a[2][0])]
            chk = [a for a, s in it.facts.items() if a.op == "app" and "is_cancelled" in a.a[0] and s == frozenset((1,))]
            ctx.check(rule, where, bool(c or chk), "the loop can end although the instance was not shut down: after " + last(it.events))
        else:
            ctx.unk(rule, where, f"the loop ends with {it.end}")


def last(events):
    e = [e for e in events if e.a[0] in ("await", "cron_next", "select")]
    return short(e[-1]) if e else "nothing"


def long_wait(it):
    """a sleep outside of the select that is not the remainder up to a tick already reached"""
    insel = False
    for i, e in enumerate(it.events):
        if e.a[0] == "select":
            insel = True
        elif e.a[0] == "selected":
            insel = False
        elif e.a[0] == "await" and e.a[1] == "sleep" and not insel:
            if not any(x.a[0] == "selected" for x in it.events[:i]):
                return short(e.a[2][0])
    return None


def signals(ctx, rule="shutdown-signal"):
    k = ctx.method(REX, "graceful_shutdown")
    if k:
        for p in ctx.run(k, [SELF], await_=False):
            ok = p.kind == "ret" and any(e.a[0] == "cancel" and e.a[1] is TOKEN for e in p.events)
            ctx.check(rule, "graceful_shutdown", ok, "a path of graceful_shutdown does not cancel the instance's loops")
    k = ctx.method(REX, "drop_guard")
    if k:
        for p in ctx.run(k, [SELF], await_=False):
            ok = p.kind == "ret" and contains(p.val, lambda y: y.op == "cancelguard" and y.a[0] is TOKEN)
            if not ok and p.kind == "ret" and p.val.op not in ("cancelguard", "adt"):
                ok = None
            ctx.check(rule, "drop_guard", ok, "the guard does not cancel the instance's loops when dropped")
            ctx.check(rule, "drop_guard", not any(e.a[0] == "cancel" for e in p.events), "taking the guard shuts the instance down at once")
    for nm in ("Rexecutor", "DropGuard"):
        pass


def token_kept(ctx, rule="shutdown-token"):
    """builder steps hand the same token and backend on"""
    for name in list(STARTERS) + ["set_global_backend"]:
        k = method_key(ctx.F, REX, name)
        if k is None:
            continue
        ps = ctx.run(k, STARTERS.get(name, [SELF]), await_=False)
        for p in ps:
            if p.kind != "ret":
                continue
            v = p.val
            if v.op == "adt" and v.a[0].endswith("Result"):
                if v.a[1] == "Err":
                    continue
                v = v.a[2][0][1]
            tok = fld(v, "cancellation_token")
            ctx.check(rule, name, True if tok is TOKEN else None if tok.op in ("opq", "res") else False, f"the instance returned by {name} has another shutdown signal: {short(tok)}")
            be = fld(v, "backend")
            ctx.check(rule, name, True if be is fld(SELF, "backend") else None if be.op in ("opq", "res") else False, f"the instance returned by {name} uses another backend: {short(be)}")
            ctx.check(rule, name, not any(e.a[0] == "cancel" for e in p.events), f"{name} shuts the instance down")


# ---- ticking --------------------------------------------------------------------------------------


def pos_wait(it, tick):
    """the wait before the action: (kind, detail).  The sleep must end no later than the tick."""
    for e in it.events:
        if e.a[0] == "select":
            for f in e.a[1]:
                if f.op == "fut" and f.a[0] in ("sleep", "sleep_until"):
                    return f.a[1][0], f.a[0]
        if e.a[0] == "await" and e.a[1] in ("sleep", "sleep_until"):
            return e.a[2][0], e.a[1]
    return None, None


def early_enough(it, tick, d):
    """d <= max(0, tick - now): True/False/None"""
    c, vs = lparts(d)
    if not vs:
        if c == 0:
            return True
        # a constant wait: fine only if the tick is at least that far
        for n in nows(it):
            if implied_dnf(it.facts, formula.of_bool(numcmp("Ge", lsub(tick, n), d))) is True:
                return True
        return False
    for n in nows(it):
        diff_ = lsub(d, lsub(tick, n))
        cc, vv = lparts(diff_)
        if not vv:
            return cc <= 0
    return None if is_opaque(d) else False


def nows(it):
    s = set()
    for e in it.events:
        for y in subterms(e):
            if is_now(y):
                s.add(y)
    for a in it.facts:
        for y in subterms(a):
            if is_now(y):
                s.add(y)
    return sorted(s, key=lambda t: t.uid)


def passes_tick(it, tick, idx):
    """after event idx the iteration waits until the tick has passed"""
    # either a later reading of the clock is known to be at or after the tick …
    for n in nows(it):
        s = runner.sign_of(lsub(tick, n), it.facts)
        if s <= {-1, 0}:
            return True
        if any(x is tick for x in ()):
            return True
    # … or a sleep of at least the remaining time
    for e in it.events:
        if e.a[0] == "await" and e.a[1] == "sleep":
            d = e.a[2][0]
            for n in nows(it):
                c, vs = lparts(lsub(d, lsub(tick, n)))
                if not vs and c >= 0:
                    return True
        if e.a[0] == "await" and e.a[1] == "sleep_until" and contains(e.a[2][0], lambda y: y is tick):
            return True
    # a persistent iterator moves on by itself
    if any(e.a[0] == "await" and e.a[1] in ("sleep", "sleep_until") and contains(e.a[2][0], is_opaque) for e in it.events) or any(e.a[0] in ("unk", "callv") for e in own(it.events)):
        return None
    return False


def cron(ctx, rule="cron-tick"):
    for name, tz in (("with_cron_executor", None), ("with_cron_executor_for_timezone", TZ)):
        ctx.attempt(rule, name, lambda: one_cron(ctx, rule, name, tz))


def one_cron(ctx, rule, name, tz):
    ps, ts = start(ctx, name)
    if ps is None:
        return
    ticks = [t for t in ts if is_ticker(t)]
    ready = [t for t in ts if is_ready(t)]
    ctx.check("cron-runner", name, len(ready) >= 1, "the executor is not registered to run its jobs")
    ctx.check("cron-runner", name, len(ready) <= 1, "the executor is registered more than once")
    if not ticks:
        return ctx.bad(rule, name, "no scheduler is started")
    ctx.check(rule, name, len(ticks) == 1, "more than one scheduler is started")
    for t in ticks:
        for it in iterations(t):
            if it.end == "panic":
                ok = any(e.a[0] == "cron_end" for e in it.events)
                ctx.check(rule, name, ok, f"the scheduler can panic: {short(it.info)}")
            if it.end != "back":
                if any(e.a[0] == "await" and e.a[1] == "Backend::enqueue" for e in it.events):
                    ctx.bad(rule, name, "the schedule ends after an enqueue")
                continue
            if signalled(it) and tests_token(it) and not any(e.a[0] == "await" and e.a[1] == "Backend::enqueue" for e in it.events):
                ctx.ok(rule, name)
                continue
            one_tick(ctx, rule, name, it, tz)


def tick_of(ctx, rule, name, it, sched, tz):
    if len(it.ticks) != 1:
        if not it.ticks:
            ctx.bad(rule, name, "an iteration does not compute the next tick")
        else:
            ctx.bad(rule, name, f"{len(it.ticks)} ticks are consumed by one iteration")
        return None
    src, tick = it.ticks[0].a[1], it.ticks[0].a[2]
    if src.op == "upcoming_after" and src.a[0] is sched and is_now(src.a[1]):
        z = src.a[2].a[0].split("<")[0]
        utc = z.endswith("::Utc")
        fixed = z.startswith("chrono::")
        good = utc if tz is None else (False if fixed else True)
        ctx.check(rule, name, good, f"ticks are computed in time zone {z}")
        return tick
    if src.op not in ("upcoming",):
        ctx.unk(rule, name, f"the tick is taken from {short(src)}")
        return None
    if src.a[0] is not sched:
        ctx.check(rule, name, None if is_opaque(src.a[0]) else False, f"the tick is taken from {short(src.a[0])} instead of the given schedule")
    z = src.a[1]
    good = (z is tz) if tz is not None else (z.op == "adt" and z.a[0].endswith("Utc"))
    ctx.check(rule, name, good, f"ticks are computed in time zone {short(z)}")
    return tick


def jsonval(t):
    """the value serialised into t; Some(x) and x serialise alike"""
    if t.op == "app" and t.a[0] == "json":
        x = t.a[1][0]
        while some(x) is not None:
            x = some(x)
        return x
    return None


def encode_failed(it):
    return any((a.op == "ok" or (a.op == "app" and a.a[0] == "ok")) and "to_value" in show(a)[:40] and s == frozenset((0,)) for a, s in it.facts.items())


def one_tick(ctx, rule, name, it, tz):
    tick = tick_of(ctx, rule, name, it, SCHED, tz)
    if tick is None:
        return
    d, how = pos_wait(it, tick)
    if d is None:
        ctx.bad(rule, name, "an iteration does not wait for its tick")
    else:
        r = early_enough(it, tick, d)
        ctx.check(rule, name, r, f"the wait of {short(d)} can go past the tick")
    enq = [e for e in own(it.events) if e.a[0] == "await" and e.a[1] == "Backend::enqueue"]
    if not enq:
        if encode_failed(it):
            ctx.check(rule, name, passes_tick(it, tick, 0), "after a failed enqueue the same tick is taken again")
            return
        return ctx.bad(rule, name, "a tick passes without a job being enqueued: " + runner.key_facts(it))
    for e in enq[:-1]:
        if it.facts.get(mkdisc(e.a[3], runner.RES)) != frozenset(("Err",)):
            ctx.bad(rule, name, "more than one job is enqueued for one tick")
    for e in enq:
        be, j = e.a[2]
        ctx.check(rule, name, be is fld(SELF, "backend") or None, f"enqueued to {short(be)}")
        ctx.check(rule, name, same(it.facts, fld(j, "scheduled_at"), tick), f"the job is scheduled at {short(fld(j, 'scheduled_at'))} instead of the tick")
        x = jsonval(fld(j, "data"))
        ctx.check(rule, name, None if x is None else x is DATA, f"the job carries {short(fld(j, 'data'))} instead of the configured data")
        ex = fld(j, "executor")
        ctx.check(rule, name, runner.const_of("NAME")(ex), f"the job is enqueued for {short(ex)}")
        u = some(fld(j, "uniqueness_criteria"))
        if u is None:
            ctx.check(rule, name, False if is_none(fld(j, "uniqueness_criteria")) else None, "the job is not made unique")
        else:
            k = some(fld(u, "key"))
            ctx.check(rule, name, k is not None and contains(k, lambda y: y.op == "app" and y.a[0] == "hash64" and y.a[1][0] is DATA) or (None if k is not None and contains(k, lambda y: y is DATA) else False),
                      f"the job is not unique on its data: key {short(fld(u, 'key'))}")
            ctx.check(rule, name, fld(u, "executor") is TRUE, "the job is not unique on its executor")
            dur = some(fld(u, "duration"))
            ctx.check(rule, name, dur is not None and dur.op == "int" and dur.a[0] == 0, f"the job is not unique on its time: window {short(fld(u, 'duration'))}")
            oc = fld(u, "on_conflict")
            ctx.check(rule, name, variant_lit(oc) == "DoNothing" if variant_lit(oc) else None, f"a conflicting job is changed: {short(oc)}")
    ctx.check(rule, name, passes_tick(it, tick, 0), "the loop goes on before the tick has passed, so the same tick is taken again")


# ---- C23 --------------------------------------------------------------------------------------------


def pruner(ctx, rule="pruner-tick"):
    name = "with_job_pruner"
    ctx.attempt(rule, name, lambda: one_pruner(ctx, rule, name))
    ctx.attempt("pruner-config", "PrunerConfig", lambda: pruner_config(ctx))


def one_pruner(ctx, rule, name):
    ps, ts = start(ctx, name)
    if ps is None:
        return
    ticks = [t for t in ts if is_ticker(t)]
    if not ticks:
        return ctx.bad(rule, name, "no pruner is started")
    ctx.check(rule, name, len(ticks) == 1, "more than one pruner is started")
    P = "rexecutor::pruner::PrunerConfig"
    fs = {f[0]: f[1] for f in ADTS[P]["v"][0]["f"]}
    fsched = [n for n, ty in fs.items() if "Schedule" in ty]
    frules = [n for n, ty in fs.items() if "PruneSpec" in ty]
    flim = [n for n, ty in fs.items() if "usize" in ty]
    if not (len(fsched) == len(frules) == len(flim) == 1):
        raise Undecided("configuration fields")
    RULES_, LIM = fld(CONFIG, frules[0]), fld(CONFIG, flim[0])
    for t in ticks:
        for it in iterations(t):
            if it.end == "panic":
                ctx.check(rule, name, any(e.a[0] == "cron_end" for e in it.events), f"the pruner can panic: {short(it.info)}")
            if it.end != "back":
                continue
            if signalled(it) and tests_token(it):
                ctx.ok(rule, name)
                continue
            tick = tick_of(ctx, rule, name, it, fld(CONFIG, fsched[0]), None)
            if tick is None:
                continue
            d, how = pos_wait(it, tick)
            if d is None:
                ctx.bad(rule, name, "an iteration does not wait for its tick")
            else:
                ctx.check(rule, name, early_enough(it, tick, d), f"the wait of {short(d)} can go past the tick")
            sl = [e for e in it.events if e.a[0] == "sloop" and calls_prune(e.a[4])]
            ea = [e for e in it.events if e.a[0] in ("each", "loop") and calls_prune(e.a[3] if e.a[0] == "each" else e.a[2])]
            direct = [e for e in it.events if e.a[0] == "await" and e.a[1] == "Backend::prune_jobs"]
            if direct:
                ctx.bad(rule, name, "a single rule is pruned outside the pass over all rules")
            if not sl and not ea:
                if any(e.a[0] == "unk" for e in own(it.events)):
                    ctx.unk(rule, name, "no pass over the rules recognised")
                elif implied_empty(it, RULES_):
                    ctx.ok(rule, name)
                else:
                    ctx.bad(rule, name, "a tick passes without the rules being applied")
                continue
            ctx.check(rule, name, len(sl) + len(ea) == 1, "the rules are applied more than once at a tick")
            for e in sl:
                src = e.a[1]
                base_, stages = src, ()
                if src.op == "it":
                    base_, stages = src.a[0], src.a[2]
                ctx.check(rule, name, True if base_ is RULES_ else None if is_opaque(base_) else False, f"the rules applied are {short(src)} instead of the configured ones")
                for st in tuple(stages) + tuple(e.a[2]):
                    nm = st.a[0]
                    ctx.check(rule, name, True if nm in ("map", "inspect", "then", "cloned", "copied", "buffer_unordered", "buffered", "enumerate", "rev") else False, f"{nm} drops rules")
                    if nm in ("buffer_unordered", "buffered"):
                        ctx.check(rule, name, limit_ok(it.facts, st.a[1], LIM), f"at most {short(st.a[1])} prunes run at a time instead of the configured number")
                ctx.check(rule, name, e.a[5] in ("for_each_concurrent", "for_each", "collect"), f"the rules are consumed by {e.a[5]}, which stops at the first failing one")
                if e.a[5] == "for_each_concurrent":
                    ctx.check(rule, name, limit_ok(it.facts, e.a[3], LIM), f"at most {short(e.a[3])} prunes run at a time instead of the configured number")
                for s in e.a[4]:
                    one_rule(ctx, rule, name, s, RULES_)
            for e in ea:
                for s in (e.a[3] if e.a[0] == "each" else e.a[2]):
                    one_rule(ctx, rule, name, s, RULES_)
            ctx.check(rule, name, passes_tick(it, tick, 0), "the loop goes on before the tick has passed, so the same tick is taken again")


def limit_ok(facts, l, lim):
    if l is lim or same(facts, l, lim) is True:
        return True
    if some(l) is not None and facts.get(mkdisc(lim, "std::option::Option")) == frozenset(("Some",)):
        return same(facts, some(l), fld(dc(lim, "Some"), "0"))
    if contains(l, lambda y: y is lim):
        return None
    return False


def implied_empty(it, rules):
    return any(a.op in ("sgn", "eq", "any") and contains(a, lambda y: y is rules) for a in it.facts)


def calls_prune(subs):
    return any(y.a[0] == "await" and y.a[1] == "Backend::prune_jobs" for s in subs for y in flat(s.a[2]))


def one_rule(ctx, rule, name, s, rules):
    if s.a[0] in ("panic",):
        return ctx.bad(rule, name, f"applying a rule can panic the pruner: {short(s.a[3])}")
    if s.a[0] not in ("ret", "yield", "back", "skip", "continue"):
        return ctx.unk(rule, name, f"applying a rule ends with {s.a[0]}")
    pr = [y for y in own(s.a[2]) if y.a[0] == "await" and y.a[1] == "Backend::prune_jobs"]
    nested = [y for y in flat(s.a[2]) if y.a[0] == "await" and y.a[1] == "Backend::prune_jobs"]
    if len(nested) > len(pr):
        sp = [e for e in s.a[2] if e.a[0] == "spawn"]
        if not any(e.a[0] == "joined" for e in s.a[2]):
            return ctx.bad(rule, name, "a rule is applied by a detached task, which the limit does not count")
        pr = nested[:1]
    if len(pr) != 1:
        return ctx.bad(rule, name, f"a rule is applied {len(pr)} times at a tick")
    be, spec = pr[0].a[2]
    ctx.check(rule, name, be is fld(SELF, "backend") or None, f"pruned in {short(be)}")
    ok = spec.op == "elem" and spec.a[0] is rules
    ctx.check(rule, name, True if ok else None if is_opaque(spec) else False, f"the rule applied is {short(spec)}")


def pruner_config(ctx, rule="pruner-config"):
    P = "rexecutor::pruner::PrunerConfig"
    fs = {f[0]: f[1] for f in ADTS[P]["v"][0]["f"]}
    frules = [n for n, ty in fs.items() if "PruneSpec" in ty][0]
    flim = [n for n, ty in fs.items() if "usize" in ty][0]
    fsched = [n for n, ty in fs.items() if "Schedule" in ty][0]
    C = SYM("cfg")
    R = fld(C, frules)

    def others(p, where, changed):
        for n in fs:
            if n != changed:
                ctx.check(rule, where, fld(p.val, n) is fld(C, n), f"{n} becomes {short(fld(p.val, n))}")

    k = ctx.method(P, "new")
    if k:
        S = SYM("schedule")
        for p in ctx.run(k, [S], await_=False):
            ctx.check(rule, "new", p.kind == "ret" and fld(p.val, fsched) is S, "new does not keep the schedule")
            r = fld(p.val, frules)
            ctx.check(rule, "new", r.op == "arr" and not r.a[0] or (None if is_opaque(r) else False), f"new starts with rules {short(r)}")
    k = ctx.method(P, "with_max_concurrency")
    if k:
        L = SYM("limit")
        for p in ctx.run(k, [C, L], await_=False):
            ctx.check(rule, "with_max_concurrency", fld(p.val, flim) is L, f"the limit becomes {short(fld(p.val, flim))}")
            others(p, "with_max_concurrency", flim)
    k = ctx.method(P, "with_pruner")
    if k:
        X = SYM("pruner")
        for p in ctx.run(k, [C, X], await_=False):
            v = fld(p.val, frules)
            ok = v.op == "push" and v.a[0] is R
            ctx.check(rule, "with_pruner", True if ok else None if is_opaque(v) else False, f"the rules become {short(v)}")
            if ok:
                spec = v.a[1]
                for n in ("status", "prune_by"):
                    ctx.check(rule, "with_pruner", fld(spec, n) is fld(X, n), f"{n} of the added rule is {short(fld(spec, n))}")
            others(p, "with_pruner", frules)
    k = ctx.method(P, "with_pruners")
    if k:
        X = SYM("pruners")
        for p in ctx.run(k, [C, X], await_=False):
            v = fld(p.val, frules)
            keeps = contains(v, lambda y: y is R)
            adds = contains(v, lambda y: y is X)
            if v is R or not keeps:
                ctx.check(rule, "with_pruners", False if not runner.is_other_opaque(v) else None, f"the rules become {short(v)}")
            else:
                ctx.check(rule, "with_pruners", True if adds else None, f"the rules become {short(v)}")
            others(p, "with_pruners", frules)
