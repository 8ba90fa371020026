"""The job runner: what happens between receiving a ready job and recording its outcome."""
from .core import *

REX = "rexecutor::Rexecutor"
SELF = SYM("self")
OPTION = "std::option::Option"
RES = "std::result::Result"
ERES = "rexecutor::executor::ExecutionResult"
EXE = "Executor::execute"
JSTAGES_OK = ("take_until", "map", "inspect", "then", "filter", "filter_map", "boxed", "fuse", "buffer_unordered", "buffered", "enumerate")


def const_of(name):
    return lambda t: t.op == "const" and t.a[0] == "rexecutor::executor::Executor::" + name


class Item:
    """one abstract path of handling one item of the ready-job stream"""

    def __init__(self, facts, sub, loop, item):
        self.facts = facts
        self.kind = sub.a[0]
        self.events = sub.a[2]
        self.info = sub.a[3]
        self.loop = loop
        self.item = item
        self.job = fld(dc(item, "Ok"), "0")
        self.marks = [e for e in self.events if e.a[0] == "await" and e.a[1].startswith("Backend::")]
        self.joined = [e for e in self.events if e.a[0] == "joined"]
        # executions: (kind of the enclosing task or None, duration of the enclosing timeout or None, event, sub)
        self.execs = []
        self._scan(self.events, None, ())

    def _scan(self, events, task, touts):
        st = list(touts)
        for e in events:
            k = e.a[0]
            if k == "timeout":
                st.append(e.a[1])
            elif k in ("timeout_end", "elapsed"):
                if st:
                    st.pop()
            elif k == "await" and e.a[1] == EXE:
                self.execs.append((task, st[-1] if st else None, e))
            elif k == "spawn":
                for s in e.a[3]:
                    self._scan(s.a[2], e, tuple(st))
            elif k in ("each", "loop", "sloop"):
                for s in (e.a[2] if k == "loop" else e.a[3] if k == "each" else e.a[4]):
                    self._scan(s.a[2], task, tuple(st))

    @property
    def typed(self):
        """the job handed to the executor"""
        for _, _, e in self.execs:
            return e.a[2][0]
        return None

    def outcomes(self):
        """[(kind, term)] the execution can have ended with on this path"""
        vals = [e.a[2] for e in self.joined]
        out = []
        for v in vals:
            x = v
            while x.op == "adt" and x.a[0] == RES and x.a[1] == "Ok":
                x = x.a[2][0][1]
            if x.op == "adt" and x.a[1] == "Err":
                x = x.a[2][0][1]
                if x.op == "joinerr":
                    out.append(("Panic", x))
                elif x.op == "elapsed":
                    out.append(("Timeout", x))
                else:
                    raise Undecided(f"a task ends with {short(x)}")
            elif x.op == "res" and x.a[0] == EXE:
                out += self._result(x)
            elif x.op == "unit" or (x.op == "tup" and not x.a[0]):
                continue
            else:
                raise Undecided(f"a task ends with {short(x)}")
        if not vals:
            for e in self.events:
                if e.a[0] == "elapsed":
                    out.append(("Timeout", e.a[1]))
                elif e.a[0] == "await" and e.a[1] == EXE:
                    out += self._result(e.a[3])
        return out

    def _result(self, x):
        s = self.facts.get(mkdisc(x, ERES))
        vs = sorted(s) if isinstance(s, frozenset) else [v["n"] for v in ADTS[ERES]["v"]] if ERES in ADTS else []
        return [(v, x) for v in vs]

    def fact1(self, pred):
        for a, s in self.facts.items():
            if pred(a):
                return s
        return None


class Main:
    """the background task started for an executor"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.key = ctx.method(REX, "with_executor")
        if self.key is None:
            raise Undecided("no with_executor")
        self.paths = ctx.run(self.key, [SELF], await_=False)
        self.loops = []  # (path facts, where events, sloop event, main task events)
        self.tasks = []
        for p in self.paths:
            for e in p.events:
                if e.a[0] == "spawn":
                    for s in e.a[3]:
                        f = dict(p.facts)
                        f.update(s.a[1])
                        self.tasks.append((p, f, e, s))
        for p, f, e, s in self.tasks:
            for x in s.a[2]:
                if x.a[0] == "sloop" and self.is_ready(x.a[1]):
                    self.loops.append((f, x, s))
        self.items = []
        for f, x, s in self.loops:
            item = mk("item", x.a[1], x.a[6]) if len(x.a) > 6 else None
            for sub in x.a[4]:
                g = dict(f)
                g.update(sub.a[1])
                it = item
                for ev in sub.a[2]:
                    if ev.a[0] == "item":
                        it = mk("item", ev.a[1], ev.a[2])
                if it is None:
                    raise Undecided("no item of the ready stream")
                self.items.append(Item(g, sub, x, it))

    def is_ready(self, src):
        return src.op == "res" and src.a[0] == "Backend::subscribe_ready_jobs"

    def require_loop(self):
        if not self.tasks:
            return "with_executor starts no background task"
        if not self.loops:
            if not any(e.a[0] == "await" and e.a[1] == "Backend::subscribe_ready_jobs" for _, _, _, s in self.tasks for e in flat(s.a[2])):
                return "the background task never subscribes to ready jobs"
            raise Undecided("the ready-job stream is not consumed by a stream combinator")
        return None


def nocast(x):
    return rewrite(x, lambda t: nocast(t.a[-1]) if t.op == "ncast" else None)


def display(t, x):
    """is t the text of x?  True/False/None"""
    while t.op == "app" and t.a[0] in ("to_owned", "into_string", "String::from", "clone"):
        t = t.a[1][0]
    if t.op == "app" and t.a[0] == "to_string":
        return t.a[1][0] is x or strip_display(t) is x
    if t is x:
        return True
    if t.op in ("str", "int") or (t.op == "app" and t.a[0].endswith("::error_type")):
        return False
    if contains(t, lambda y: y is x):
        return None
    return None if is_opaque(t) and not contains(t, lambda y: y.op == "res" and y.a[0] == EXE) else False


def strip_display(t):
    while t.op == "app" and t.a[0] in ("to_string", "to_owned", "into_string", "String::from", "clone"):
        t = t.a[1][0]
    return t


def is_error(facts, err, outcome, x):
    """does the recorded failure describe the outcome?"""
    et, msg = fld(err, "error_type"), fld(err, "message")
    v = variant_lit(et)
    if v is None:
        return None
    if outcome == "Panic":
        return v == "Panic" and contains(msg, lambda y: y is x)
    if outcome == "Timeout":
        return v == "Timeout"
    if outcome == "Cancel":
        if v != "Cancelled":
            return False
        return display(msg, fld(dc(x, "Cancel"), "reason"))
    if outcome == "Error":
        if v != "Other":
            return False
        e = fld(dc(x, "Error"), "error")
        a = display(msg, e)
        t = fld(dc(et, "Other"), "0")
        b = None
        s = strip_display(t)
        if s.op == "app" and s.a[0].endswith("::error_type"):
            b = s.a[1][0] is e
        elif not contains(t, lambda y: y is e):
            b = False
        return False if False in (a, b) else None if None in (a, b) else True
    return None


def now_plus(it, t, d):
    """t = now (after the execution ended) + d; saturation allowed only where the sum is not representable"""
    after = max((e.a[3].a[0] for e in it.joined), default=0)
    for n in subterms(t):
        if is_now(n):
            want = ladd(n, d)
            if want is t or same(it.facts, want, t):
                return True if n.a[1][0].a[0] >= after else "computed from a time read before the execution ended"
    for a, s in it.facts.items():
        if a.op in ("dtfits", "app") and s == frozenset((0,)) and (a.op == "dtfits" or a.a[0] == "dtfits"):
            inner = a.a[0] if a.op == "dtfits" else a.a[1][0]
            for n in subterms(inner):
                if is_now(n) and same(it.facts, ladd(n, d), inner):
                    return True
    if contains(t, lambda y: y.op in ("opq", "havoc", "lv", "unk")):
        return None
    return "not now plus the delay: " + short(t)


def final_known(it):
    """True: known final, False: known not final, None: unknown"""
    j = it.typed
    facts = {nocast(a): s for a, s in it.facts.items()}
    s = sign_of(lsub(nocast(fld(j, "attempt")), nocast(fld(j, "max_attempts"))), facts)
    if s <= {0, 1}:
        return True
    if s <= {-1}:
        return False
    return "mixed"


def sign_of(d, facts):
    """possible signs of the linear term d under the facts"""
    res = frozenset((-1, 0, 1))
    for sg in (-1, 0, 1):
        goal = formula.of_bool(isin(mksgn(d), tuple(x for x in (-1, 0, 1) if x != sg)))
        if implied_dnf(facts, goal) is True:
            res -= {sg}
    return res


def outcome_recorded(ctx, rule="runner-outcome"):
    W = "with_executor"

    def go():
        m = Main(ctx)
        why = m.require_loop()
        if why:
            return ctx.bad(rule, W, why)
        seen = set()
        for it in m.items:
            if it.kind != "ret":
                continue
            if not it.execs and not it.joined:
                if it.marks and not decode_failed(it):
                    ctx.bad(rule, W, f"an outcome is recorded ({it.marks[0].a[1]}) for a job that was not executed")
                elif not decode_failed(it):
                    ctx.check(rule, W, False, "a decodable ready job is dropped without being executed")
                continue
            if not it.execs:
                continue
            try:
                outs = it.outcomes()
            except Undecided as e:
                ctx.unk(rule, W, str(e))
                continue
            for o, x in outs:
                where = f"{W} outcome {o}" + (" blocking" if it.fact1(const_of("BLOCKING")) == frozenset((1,)) else "") + (
                    " timeout" if any(t is not None for _, t, _ in it.execs) else "")
                seen.add(o)
                ctx.attempt(rule, where, lambda: one_outcome(ctx, rule, where, it, o, x))
        for o in ("Done", "Cancel", "Snooze", "Error", "Panic", "Timeout"):
            if o not in seen:
                ctx.bad(rule, f"{W} outcome {o}", f"no execution path handles the outcome {o}")
    ctx.attempt(rule, W, go)


def decode_failed(it):
    s = it.facts.get(mkdisc(it.item, RES))
    if s == frozenset(("Err",)):
        return True
    for a, v in it.facts.items():
        if a.op == "ok" or (a.op == "app" and a.a[0] == "ok"):
            if v == frozenset((0,)):
                return True
        if a.op == "sgn":
            # a counter that does not fit
            vs = lparts(a.a[0])[1]
            if any(contains(t, lambda y: y is it.item) for t in vs):
                c = lparts(a.a[0])[0]
                if (c == 0 and v == frozenset((-1,))) or (c <= -65535 and v == frozenset((1,))):
                    return True
    return False


WANT = {"Done": ("mark_job_complete",), "Cancel": ("mark_job_cancelled",), "Snooze": ("mark_job_snoozed",),
        "Error": ("mark_job_discarded", "mark_job_retryable"), "Panic": ("mark_job_discarded", "mark_job_retryable"),
        "Timeout": ("mark_job_discarded", "mark_job_retryable")}


def one_outcome(ctx, rule, where, it, o, x):
    marks = it.marks
    # marks made by a nested task count as well, but see C19 for when
    for e in it.events:
        if e.a[0] == "spawn":
            for s in e.a[3]:
                marks = marks + [y for y in flat(s.a[2]) if y.a[0] == "await" and y.a[1].startswith("Backend::")]
    if not marks:
        return ctx.bad(rule, where, "the outcome is not recorded")
    for e in marks[:-1]:
        if it.facts.get(mkdisc(e.a[3], RES)) != frozenset(("Err",)):
            return ctx.bad(rule, where, f"more than one outcome is recorded: {', '.join(e.a[1] for e in marks)}")
    for e in marks:
        nm = e.a[1].split("::")[1]
        args = e.a[2]
        if nm not in WANT[o]:
            return ctx.bad(rule, where, f"recorded with {nm}")
        if not same(it.facts, args[0], fld(SELF, "backend")):
            ctx.check(rule, where, None, f"recorded in {short(args[0])}")
        if same(it.facts, args[1], fld(it.job, "id")) is not True:
            return ctx.check(rule, where, None if is_other_opaque(args[1]) else False, f"recorded for id {short(args[1])}")
        j = it.typed
        if nm == "mark_job_snoozed":
            r = now_plus(it, args[2], fld(dc(x, "Snooze"), "delay"))
            if r is not True:
                return ctx.check(rule, where, None if r is None else False, f"snoozed until a time that is {r}")
        elif nm == "mark_job_retryable":
            r = now_plus(it, args[2], mk_backoff(it, j))
            if r is not True:
                return ctx.check(rule, where, None if r is None else False, f"retried at a time that is {r}")
        if nm in ("mark_job_cancelled", "mark_job_discarded", "mark_job_retryable"):
            r = is_error(it.facts, args[-1], o, x)
            if r is not True:
                return ctx.check(rule, where, r, f"the recorded failure is {short(args[-1], 300)}")
        if nm in ("mark_job_discarded", "mark_job_retryable"):
            f = final_known(it)
            want = nm == "mark_job_discarded"
            if f is not want:
                return ctx.check(rule, where, None if f is None and False else False,
                                 f"{nm} although the attempt is " + ("final" if f is True else "not final" if f is False else "not known to be " + ("final" if want else "an earlier one")))
    ctx.ok(rule, where)


def mk_backoff(it, j):
    for e in it.events:
        if e.a[0] == "tcall" and e.a[1] == "Executor::backoff":
            if e.a[2][0] is j:
                return APP("Executor::backoff", e.a[2][0]) if len(e.a) < 4 else e.a[3]
    # computed elsewhere or not at all
    return APP("Executor::backoff", j)


def is_other_opaque(t):
    return contains(t, lambda y: y.op in ("opq", "havoc", "lv", "bot"))


def budget(ctx, rule="runner-final"):
    """C02: which attempts are final"""
    W = "with_executor"

    def go():
        m = Main(ctx)
        why = m.require_loop()
        if why:
            return ctx.bad(rule, W, why)
        n = 0
        for it in m.items:
            if it.kind != "ret" or not it.execs:
                continue
            for e in flat(it.events):
                if e.a[0] != "await" or e.a[1] not in ("Backend::mark_job_discarded", "Backend::mark_job_retryable"):
                    continue
                n += 1
                f = final_known(it)
                want = e.a[1].endswith("discarded")
                where = f"{W} {e.a[1]}"
                ctx.check(rule, where, f is want, "an attempt that is " + ("final" if f is True else "not final" if f is False else "not decided to be final by attempt >= max_attempts")
                          + (" is discarded" if want else " is scheduled again"))
                j = it.typed
                for fl in ("attempt", "max_attempts"):
                    ctx.check(rule, where, nocast(fld(j, fl)) is nocast(fld(it.job, fl)), f"finality is decided on {short(fld(j, fl))} instead of the stored {fl}")
        if not n:
            ctx.bad(rule, W, "no failing attempt is ever discarded or retried")
    ctx.attempt(rule, W, go)


def survives(ctx, rule="runner-survives"):
    """C18"""
    W = "with_executor"

    def go():
        m = Main(ctx)
        why = m.require_loop()
        if why:
            return ctx.bad(rule, W, why)
        for p, f, e, s in m.tasks:
            if s.a[0] == "panic":
                ctx.bad(rule, W, f"the runner task can panic: {short(s.a[3])}")
        for f, x, s in m.loops:
            for st in x.a[2]:
                nm = st.a[0]
                ctx.check(rule, f"{W} stage {nm}", True if nm in JSTAGES_OK else False,
                          f"the ready-job stream goes through {nm}, which can end it")
            ctx.check(rule, f"{W} loop", x.a[5] in ("for_each_concurrent", "for_each", "loop"), f"the stream is consumed by {x.a[5]}, which stops at the first failure")
        for it in m.items:
            where = W + " item"
            if it.kind == "panic":
                ctx.bad(rule, where, f"handling a job can panic in the runner: {short(it.info)} when {key_facts(it)}")
                continue
            if it.kind not in ("ret", "skip"):
                ctx.check(rule, where, None if it.kind == "unk" else False, f"handling a job ends with {it.kind}: {short(it.info) if isinstance(it.info, T) else it.info} when {key_facts(it)}")
                continue
            ok = True
            for e in own(it.events):
                if e.a[0] == "maypanic":
                    ok = False
                    ctx.bad(rule, where, f"{e.a[1]} of {short(e.a[2]) if isinstance(e.a[2], T) else e.a[2]} at {e.a[3] if len(e.a) > 3 else ''} can panic in the runner")
                elif e.a[0] == "cancel":
                    ok = False
                    ctx.bad(rule, where, f"handling a job cancels {short(e.a[1])} when {key_facts(it)}")
                elif e.a[0] == "unk" and not benign(e):
                    ok = False
                    ctx.unk(rule, where, f"unmodelled call {e.a[1]}")
            for task, t, e in it.execs:
                if task is None:
                    ok = False
                    ctx.bad(rule, where, "the executor runs on the runner's own task: its panic ends the runner")
            if ok:
                ctx.ok(rule, where)
    ctx.attempt(rule, W, go)


def subscribes(ctx, rule="runner-subscribes"):
    """the runner of an executor asks the backend for the jobs of exactly that executor"""
    W = "with_executor"

    def go():
        m = Main(ctx)
        why = m.require_loop()
        if why:
            return ctx.bad(rule, W, why)
        for p, f, e, s in m.tasks:
            for x in flat(s.a[2]):
                if x.a[0] == "await" and x.a[1] == "Backend::subscribe_ready_jobs":
                    ctx.check(rule, W, True if const_of("NAME")(x.a[2][1]) else None if is_opaque(x.a[2][1]) and not contains(x.a[2][1], const_of("NAME")) else False, f"the runner subscribes to the jobs of {short(x.a[2][1])}, not of its own executor")
                    ctx.check(rule, W, same(f, x.a[2][0], fld(SELF, "backend")), f"the runner subscribes to another backend: {short(x.a[2][0])}")
    ctx.attempt(rule, W, go)


def benign(e):
    return "custom" in e.a[1] or "Error" in e.a[1].split("::")[-1]


def own(events):
    """events of this task itself, nested tasks excluded"""
    for e in events:
        yield e
        k = e.a[0]
        subs = e.a[2] if k == "loop" else e.a[3] if k == "each" else e.a[4] if k == "sloop" else ()
        for s in subs:
            yield from own(s.a[2])


def key_facts(it):
    return "; ".join(f"{show(a)[-90:]}={set(s) if isinstance(s, frozenset) else s}" for a, s in list(it.facts.items())[-4:])


def concurrency(ctx, rule="runner-limit"):
    W = "with_executor"

    def go():
        m = Main(ctx)
        why = m.require_loop()
        if why:
            return ctx.bad(rule, W, why)
        for f, x, s in m.loops:
            limit = x.a[3]
            lims = [limit] if x.a[5] == "for_each_concurrent" else []
            for st in x.a[2]:
                if st.a[0] in ("buffer_unordered", "buffered"):
                    lims.append(st.a[1])
            if x.a[5] == "for_each" and not lims:
                ctx.bad(rule, W, "ready jobs are executed one at a time whatever the configured limit")
            for l in lims:
                ctx.check(rule, W, is_limit(f, l), f"the number of concurrent executions is limited by {short(l)} instead of the executor's maximum concurrency")
        for it in m.items:
            if it.kind != "ret" or not it.execs:
                continue
            ok = True
            for task, t, e in it.execs:
                b = it.fact1(const_of("BLOCKING"))
                if task is None:
                    continue
                k = task.a[1]
                if b is None or len(b) != 1:
                    ok = False
                    ctx.bad(rule, W + " mode", f"the execution runs on {k} without regard to the executor's blocking mode")
                elif (k == "spawn_blocking") != (b == frozenset((1,))):
                    ok = False
                    ctx.bad(rule, W + " mode", f"{'a blocking' if b == frozenset((1,)) else 'a non-blocking'} executor runs on {k}")
                if not any(j.a[1] is task.a[2] for j in it.joined):
                    ok = False
                    ctx.bad(rule, W + " wait", "the execution is not awaited: it no longer counts against the limit")
            for e in it.events:
                if e.a[0] == "spawn":
                    rec = any(y.a[0] == "await" and y.a[1].startswith("Backend::mark") for s in e.a[3] for y in flat(s.a[2]))
                    if rec and not any(j.a[1] is e.a[2] for j in it.joined):
                        ok = False
                        ctx.bad(rule, W + " wait", "the outcome is recorded by a detached task: the execution stops counting before")
            if ok:
                ctx.ok(rule, W + " item")
    ctx.attempt(rule, W, go)


def is_limit(facts, l):
    for a, s in facts.items():
        if a.op == "disc" and const_of("MAX_CONCURRENCY")(a.a[0]):
            if same(facts, l, a.a[0]) is True:
                return True
            if some(l) is not None and s == frozenset(("Some",)):
                return same(facts, some(l), fld(dc(a.a[0], "Some"), "0"))
    if l.op == "const" and l.a[0].endswith("Executor::MAX_CONCURRENCY"):
        return True
    if contains(l, const_of("MAX_CONCURRENCY")):
        return None
    return False


def timeouts(ctx, rule="runner-timeout"):
    W = "with_executor"

    def go():
        m = Main(ctx)
        why = m.require_loop()
        if why:
            return ctx.bad(rule, W, why)
        for it in m.items:
            if it.execs:
                tt = APP("Executor::timeout", it.typed)
                for e in own(it.events):
                    if e.a[0] == "timeout" and contains(e.a[2], lambda y: y.op == "jh") and same(it.facts, e.a[1], fld(dc(tt, "Some"), "0")) is not True:
                        ctx.bad(rule, W, f"the wait for an execution is cut short after {short(e.a[1])}")
            if it.kind != "ret" or not it.execs:
                continue
            j = it.typed
            tcalls = [e for e in flat(it.events) if e.a[0] == "tcall" and e.a[1] == "Executor::timeout"]
            tt = APP("Executor::timeout", j)
            s = it.facts.get(mkdisc(tt, OPTION))
            if s is None or len(s) != 1:
                other = [a for a in it.facts if a.op == "disc" and contains(a, lambda y: y.op == "app" and y.a[0] == "Executor::timeout")]
                ctx.bad(rule, W, "the execution does not depend on the timeout requested for this job" + (f" but on {short(other[0])}" if other else ""))
                continue
            want = fld(dc(tt, "Some"), "0") if s == frozenset(("Some",)) else None
            ok = True
            for task, t, e in it.execs:
                if want is None and t is not None:
                    ok = False
                    ctx.bad(rule, W, f"an execution without requested timeout is cut short after {short(t)}")
                elif want is not None and t is None:
                    # a timeout around the handle of the task, which is then not cut short
                    ok = False
                    ctx.bad(rule, W, "the execution of a job with a requested timeout does not run under it")
                elif want is not None and same(it.facts, t, want) is not True:
                    ok = False
                    ctx.check(rule, W, None if is_other_opaque(t) else False, f"the execution runs under {short(t)} instead of the requested timeout")
            if not same(it.facts, fld(j, "id"), fld(it.job, "id")):
                ok = False
                ctx.bad(rule, W, "the timeout is computed for another job")
            for o, x in it.outcomes():
                if o == "Timeout":
                    for e in it.marks:
                        er = e.a[2][-1]
                        v = variant_lit(fld(er, "error_type")) if e.a[1] in ("Backend::mark_job_discarded", "Backend::mark_job_retryable") else None
                        if v != "Timeout":
                            ok = False
                            ctx.bad(rule, W, f"an overrun execution is recorded with {e.a[1]} {v or ''}")
            if ok:
                ctx.ok(rule, W)
    ctx.attempt(rule, W, go)
