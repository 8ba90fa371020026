"""The ready-job stream of the in-memory backend (claiming), notification and waiting, lock discipline."""
from .core import *
from .mem import SELF, TRANSITIONS, JOBARG, trans_paths, some_now, plus, ID
from . import uniq
from .prune import direction

EX = SYM("ex")
JS = "rexecutor::job::JobStatus"
WHERE = "InMemoryBackend::subscribe_ready_jobs"
MS = 1000000
OPTN = "std::option::Option"


class Stream:
    def __init__(self, ctx):
        self.store = Store(ctx.F)
        self.lock = self.store.lock(SELF)
        self.k = ctx.method(MEM, "subscribe_ready_jobs", BACKEND)
        self.subs, self.paths = [], []
        if not self.k:
            return
        for p in ctx.run(self.k, [SELF, EX]):
            if p.kind != "ret":
                continue
            self.subs.append(p)
            v = p.val
            if v is None or v.op != "gen":
                raise Undecided(f"the ready-job stream is {short(v) if v is not None else v}")
            ck = ("stream", p.out)
            if ck not in ctx.cache:
                ctx.cache[ck] = ctx.run_more(p, v.a[0])
            self.paths += ctx.cache[ck]
        if not self.paths:
            raise Undecided("no path creates a stream")

    def segments(self):
        out = []
        for p in self.paths:
            out += segs(p.facts, p.events, ())
        return out

    def claims(self):
        """[(facts, events, commit, write, fields)] for every job marked executing"""
        out = []
        for facts, events, where in self.segments():
            for c in commits(self.store, SELF, facts, events):
                for w in c.writes:
                    fw, other = field_writes(self.store, w)
                    v = fw.get("status")
                    if v is not None and variant_lit(v) == "Executing":
                        out.append((facts, events, c, w, fw, other))
        return out


    def none(self):
        """verdict of 'no path claims a job': undecided when the stream changes the jobs in a way that is not modelled"""
        for facts, events, where in self.segments():
            for c in commits(self.store, SELF, facts, events):
                if c.data is not c.base:
                    return None
                for w in c.writes:
                    fw, other = field_writes(self.store, w)
                    if other or "status" in fw and variant_lit(fw["status"]) is None:
                        return None
            if any(t.op == "E" for e in events if e.a[0] == "loop" for t in subterms(e)):
                return None
        return False


def runnable(j, ex, now=None, strict=True, ahead=100):
    d = formula.of_bool(isin(mkdisc(fld(j, "status"), JS), ("Scheduled", "Retryable")))
    d = formula.conj_and(d, formula.of_bool(mkeq(fld(j, "executor"), ex)))
    if now is not None:
        d = formula.conj_and(d, formula.of_bool(numcmp("Lt" if strict else "Le", lsub(fld(j, "scheduled_at"), now), INT(ahead * MS))))
    return d


def yields(events):
    return [(i, e) for i, e in enumerate(events) if e.a[0] == "yield"]


def atomic_claim(ctx, rule="mem-claim-atomic"):
    def go():
        s = Stream(ctx)
        if not s.k:
            return
        n = 0
        for facts, events, c, w, fw, other in s.claims():
            n += 1
            root, old, new, wf = w
            where = f"{WHERE} claim of {short(root.a[1])}"
            ctx.check(rule, where, root.a[0] is c.base, f"marks a job found in {short(root.a[0])} while holding section {c.base.a[1]}")
            st = implied_dnf(wf, formula.of_bool(isin(mkdisc(fld(s.store.job(old), "status"), JS), ("Scheduled", "Retryable"))))
            ctx.check(rule, where, st, "marks a job executing without having established in the same critical section that it is still runnable")
            ys = [y for i, y in yields(events) if i > c.idx]
            ok = len(ys) == 1
            ctx.check(rule, where, ok, f"a claimed job is handed out {len(ys)} times")
            if ok:
                v = ys[0].a[1]
                j = fld(dc(v, "Ok"), "0") if variant_of(v, facts, "std::result::Result") == "Ok" else None
                ctx.check(rule, where, j is not None and same_job(facts, j, s.store.job(new)), "what is handed out is not the job as stored by the claim")
            ctx.check(rule, where, len([x for x in c.writes]) == 1 and c.data is c.base, "claiming changes more than the claimed job")
        if n == 0:
            ctx.check(rule, WHERE, s.none(), "no path marks a job as executing")
        for facts, events, where_ in s.segments():
            for i, y in yields(events):
                v = y.a[1]
                if variant_of(v, facts, "std::result::Result") == "Err":
                    continue
                cl = [w for f, ev, c, w, fw, o in s.claims() if ev is events or ev == events]
                ctx.check(rule, f"{WHERE} yield", bool(cl) or s.none(), f"hands out {short(v)} without having marked it executing")
    ctx.attempt(rule, WHERE, go)


def same_job(facts, a, b):
    if a is b:
        return True
    for f in ADTS[JOB]["v"][0]["f"]:
        r = same(facts, fld(a, f[0]), fld(b, f[0]))
        if r is not True:
            return r
    return True


def claim_writes(ctx, rule, only=None):
    """fields written by a claim: attempt + 1, attempted_at now, status executing"""
    def go():
        s = Stream(ctx)
        if not s.k:
            return
        n = 0
        for facts, events, c, w, fw, other in s.claims():
            n += 1
            oj = s.store.job(w[1])
            if only is None or "attempt" in only:
                ctx.check(rule, WHERE, "attempt" in fw and plus("attempt", 1)(facts, oj, fw["attempt"]), f"claiming sets attempt := {short(fw['attempt']) if 'attempt' in fw else 'unchanged'}")
            if only is None or "attempted_at" in only:
                ctx.check(rule, WHERE, "attempted_at" in fw and some_now(facts, oj, fw["attempted_at"]), "claiming does not set the attempt time to now")
            if only is None:
                extra = set(fw) - {"status", "attempt", "attempted_at"}
                ctx.check(rule, WHERE, not extra and not other, f"claiming also changes {', '.join(sorted(extra)) or other}")
        ctx.check(rule, WHERE, n > 0 or s.none(), "no path claims a job")
    ctx.attempt(rule, WHERE, go)


def handed_out(ctx, rule, fields):
    """the job handed to the runner carries the stored values of the given fields, as they are after the claim"""
    def go():
        s = Stream(ctx)
        if not s.k:
            return
        for facts, events, c, w, fw, other in s.claims():
            for i, y in yields(events):
                v = y.a[1]
                if i <= c.idx or variant_of(v, facts, "std::result::Result") != "Ok":
                    continue
                j, new = fld(dc(v, "Ok"), "0"), s.store.job(w[2])
                for f in fields:
                    ctx.check(rule, WHERE, same(facts, fld(j, f), fld(new, f)), f"the job handed out has {f} := {short(fld(j, f))}, not the stored one")
    ctx.attempt(rule, WHERE, go)


def nows_of(*xs):
    out = set()
    for x in xs:
        for y in subterms(x) if isinstance(x, T) else [z for t in x for z in subterms(t)]:
            if is_now(y):
                out.add(y)
    return sorted(out, key=lambda t: t.uid)


def eligible(ctx, rule="mem-claim-eligible", complete=False):
    """only eligible jobs are claimed, and every one of them is considered (complete: the second half only)"""
    def go():
        s = Stream(ctx)
        if not s.k:
            return
        n = 0
        for facts, events, c, w, fw, other in s.claims():
            n += 1
            root, old, new, wf = w
            j = s.store.job(old)
            where = f"{WHERE} claim of {short(root.a[1])}"
            if complete:
                continue
            ctx.check(rule, where, implied_dnf(wf, formula.of_bool(mkeq(fld(j, "executor"), EX))), "a job of another executor can be handed out")
            ctx.check(rule, where, implied_dnf(wf, formula.of_bool(isin(mkdisc(fld(j, "status"), JS), ("Scheduled", "Retryable")))), "a job that is not scheduled or retryable can be handed out")
            rs = [implied_dnf(wf, formula.of_bool(numcmp("Le", lsub(fld(j, "scheduled_at"), now), INT(100 * MS)))) for now in nows_of(list(wf))]
            ctx.check(rule, where, True if True in rs else None if None in rs else False, "a job scheduled more than 100ms in the future can be handed out")
            pk = [e for e in events if e.a[0] == "pick" and e.a[3] is root.a[1] and e.a[2] is root.a[0]]
            if not pk:
                ctx.unk(rule, where, "how the claimed job is selected is not modelled")
                continue
            e = pk[0]
            d = formula.expand([x.a[0] for x in e.a[4]])
            ej = s.store.job(mk("elem", e.a[2], e.a[7]))
            ctx.check(rule, where, eq_runnable(d, ej), "a job meeting the three conditions can be ineligible")
            if e.a[6]:
                ctx.bad(rule, where, f"only part of the eligible jobs is considered: {short(e.a[6][0])}")
        # the claim attempts that find nothing
        for facts, events, where_ in s.segments():
            sec = {e.a[3] for e in events if e.a[0] == "acq" and e.a[1] is s.lock and e.a[2] == "w"}
            for a, v in facts.items():
                if a.op == "any" and a.a[0].op == "data" and a.a[0].a[0] is s.lock and a.a[0].a[1] in sec and v == frozenset((0,)):
                    ej = s.store.job(mk("elem", a.a[0], a.a[1]))
                    ctx.check(rule, f"{WHERE} no claim", eq_runnable(formula.expand(list(a.a[2])), ej, complete), "a job meeting the three conditions is passed over")
        ctx.check(rule, WHERE, n > 0 or s.none(), "no path claims a job")
    ctx.attempt(rule, WHERE, go)


def eq_runnable(d, ej, wider=False):
    nows = nows_of([mk("set", frozenset(d))])
    if wider:
        rs = [formula.implies(runnable(ej, EX, now, False, 0), d)[0] for now in nows or [None]]
    else:
        rs = [formula.equiv(d, runnable(ej, EX, now, strict))[0] for now in nows for strict in (True, False)]
    if not rs:
        return False
    return True if True in rs else None if None in rs else False


def order(ctx, rule="mem-claim-order"):
    def go():
        s = Stream(ctx)
        if not s.k:
            return
        n = 0
        for facts, events, c, w, fw, other in s.claims():
            root = w[0]
            n += 1
            where = f"{WHERE} claim of {short(root.a[1])}"
            pk = [e for e in events if e.a[0] == "pick" and e.a[3] is root.a[1] and e.a[2] is root.a[0]]
            if not pk:
                ctx.unk(rule, where, "how the claimed job is selected is not modelled")
                continue
            e = pk[0]
            how, src, o = e.a[1], e.a[2], e.a[5]
            ctx.check(rule, where, prefers(how, o, src, s.store), "a job that is scheduled no later and has a priority number no larger, and is better in one of the two, can be passed over")
        ctx.check(rule, WHERE, n > 0 or s.none(), "no path claims a job")
    ctx.attempt(rule, WHERE, go)


def prefers(how, o, src, store):
    """does the selection never pass over a dominating job?"""
    flip = how in ("last", "max")
    while o.a[0] == "rev":
        flip = not flip
        o = o.a[1]
    if o.a[0] == "iter":
        return False
    if o.a[0] != "cmp":
        return None
    A, B = mk("bv", "a"), mk("bv", "b")
    if flip:
        A, B = B, A
    ja, jb = store.job(mk("elem", src, A)), store.job(mk("elem", src, B))
    sa, sb, pa, pb = fld(ja, "scheduled_at"), fld(jb, "scheduled_at"), fld(ja, "priority"), fld(jb, "priority")
    B_ = formula.of_bool
    dom = formula.conj_and(B_(numcmp("Lt", sa, sb)), B_(numcmp("Le", pa, pb))) + formula.conj_and(B_(numcmp("Eq", sa, sb)), B_(numcmp("Lt", pa, pb)))
    return formula.implies(dom, list(o.a[1]))[0]


# ---- notification ------------------------------------------------------------------------------------


def sends_to_all(store, events, ex, facts, after):
    """is every subscriber registered for executor ex sent a notification after event index `after`?"""
    sub = store.sublock(SELF)
    absent = False
    for a, v in facts.items():
        if a.op == "haskey" and a.a[0].op == "data" and a.a[0].a[0] is sub and v == frozenset((0,)) and same(facts, a.a[1], ex) is True:
            absent = True
    if absent:
        acqs = [i for i, e in enumerate(events) if e.a[0] == "acq" and e.a[1] is sub]
        return any(i > after for i in acqs)
    res = False
    for i, e in enumerate(events):
        if e.a[0] != "each":
            continue
        src = e.a[1]
        r = each_sends(e)
        if src.op == "elem" and src.a[0].op == "data" and src.a[0].a[0] is sub and src.a[1].op == "key":
            if same(facts, src.a[1].a[0], ex) is True:
                if r and not e.a[5] and i > after:
                    return True
                if r is None:
                    res = None
        elif src.op == "flatten" and src.a[0].op == "it" and src.a[0].a[0].op == "data" and src.a[0].a[0].a[0] is sub:
            if i > after and r and not e.a[5] and not [x for x in src.a[0].a[2] if x.a[0] not in ("map", "own", "inspect")]:
                return True
            res = None if res is False else res
        elif src.op == "data" and src.a[0] is sub:
            if i > after and not e.a[5] and all(any(each_sends(x) and not x.a[5] for x in s.a[2] if x.a[0] == "each") for s in e.a[3]):
                return True
            res = None if res is False else res
    return res


def each_sends(e):
    """every element of the loop is sent something"""
    if not e.a[3]:
        return False
    el = mk("elem", e.a[1], e.a[2])
    for s in e.a[3]:
        if s.a[0] not in ("yield", "next", "cont", "ret"):
            return False if s.a[0] in ("brk", "stop") else None
        if not any(x.a[0] == "send" and contains(x.a[1], lambda t: t is el) for x in flat(s.a[2])):
            return False
    return True


def paused_fact(store, facts):
    for a, v in facts.items():
        if store.paused and contains(a, lambda t: t is fld(SELF, store.paused)):
            if v == frozenset((1,)):
                return True
    return False


def notifies(ctx, rule="mem-notify"):
    store = Store(ctx.F)
    lock = store.lock(SELF)

    def judge(where, p, must=True):
        if paused_fact(store, p.facts):
            return 0
        n = 0
        for c in commits(store, SELF, p.facts, p.events):
            if c.pure:
                continue
            acq = max([i for i, e in enumerate(p.events) if e.a[0] == "acq" and e.a[1] is lock and e.a[3] == c.ev.a[3]] or [-1])
            targets = []
            if c.data is not c.base:
                if c.data.op != "push":
                    ctx.unk(rule, where, f"jobs become {short(c.data)}")
                    n += 1
                    continue
                targets.append(fld(store.job(c.data.a[1]), "executor"))
            for w in c.writes:
                fw, other = field_writes(store, w)
                if "scheduled_at" in fw or "status" in fw or must:
                    targets.append(fld(store.job(w[1]), "executor"))
            for t in targets:
                n += 1
                r = sends_to_all(store, p.events, t, p.facts, acq)
                ctx.check(rule, where, r, f"the subscribers of {short(t)} are not all notified after the change")
        return n

    for op in ("mark_job_retryable", "mark_job_snoozed", "rerun_job", "update_job"):
        def go(op=op):
            k, ps = trans_paths(ctx, op)
            where = "InMemoryBackend::" + op
            n = sum(judge(where, p) for p in ps if p.result == "Ok")
            if k:
                ctx.check(rule, where, n > 0, "no path changes and announces a job")
        ctx.attempt(rule, "InMemoryBackend::" + op, go)
    for name, crit in (("no criteria", OPT()), ("criteria", OPT(uniq.criteria(True, True, True))), ("replace", OPT(uniq.criteria(False, True, False, uniq.replace(uniq.FLAGS)))),
                       ("replace time", OPT(uniq.criteria(True, False, False, uniq.replace(("scheduled_at",)))))):
        def go(name=name, crit=crit):
            r = uniq.Run(ctx, crit)
            where = f"InMemoryBackend::enqueue {name}"
            n = sum(judge(where, p) for p in r.ok)
            ctx.check(rule, where, n > 0, "no path stores and announces a job")
        ctx.attempt(rule, "InMemoryBackend::enqueue", go)

    def wake():
        k = ctx.method(MEM, "notify_all")
        if not k:
            return
        sub = store.sublock(SELF)
        n = 0
        for p in ctx.run(k, [SELF], await_=False):
            if p.result != "Ok":
                continue
            n += 1
            ok = False
            for e in p.events:
                if e.a[0] == "each" and e.a[1].op == "data" and e.a[1].a[0] is sub and not e.a[5]:
                    ok = all(any(each_sends(x) and not x.a[5] for x in s.a[2] if x.a[0] == "each") for s in e.a[3])
                elif e.a[0] == "each" and any(t.op == "data" and t.a[0] is sub for t in subterms(e.a[1])):
                    ok = ok or (each_sends(e) and not e.a[5]) or None
            ctx.check(rule, "InMemoryBackend::notify_all", ok, "not every subscriber is woken")
        ctx.check(rule, "InMemoryBackend::notify_all", n > 0, "no path wakes the subscribers")
    ctx.attempt(rule, "InMemoryBackend::notify_all", wake)


def registered(ctx, rule, where, sub, p):
    """the channel the stream registers for its executor; earlier registrations must be kept"""
    got = None
    for e in p.events:
        if e.a[0] == "rel" and e.a[1] is sub and e.a[2] == "w":
            d = e.a[4]
            if d.op == "ins" and d.a[0].op == "data" and same(p.facts, d.a[1], EX) is True:
                for x in subterms(d.a[2]):
                    if x.op == "chtx":
                        got = x.a[0]
                ctx.check(rule, where, p.facts.get(mk("haskey", d.a[0], d.a[1])) == frozenset((0,)) or contains(d.a[2], lambda t: t is mk("elem", d.a[0], mk("key", d.a[1]))),
                          "registering drops the subscribers registered before")
            for r, v in e.a[5]:
                if r.a[0].op == "data" and r.a[1].op == "key" and same(p.facts, r.a[1].a[0], EX) is True:
                    if p.facts.get(mk("haskey", r.a[0], r.a[1].a[0])) == frozenset((0,)):
                        v = mk("push", mk("elem", r.a[0], r.a[1]), v)
                    for x in subterms(v):
                        if x.op == "chtx":
                            got = x.a[0]
                    ctx.check(rule, where, any(y.op in ("push", "ext") and contains(y, lambda t: t is mk("elem", r.a[0], r.a[1])) for y in subterms(v)) or None,
                              "registering drops the subscribers registered before")
    return got


def pauses(events):
    """[(index, select over the futures waited for, False) | (index, await, True)]: a wait under a timeout is a select with a sleep"""
    out, skip = [], False
    for i, e in enumerate(events):
        k = e.a[0]
        if k == "select":
            out.append((i, e, False))
            skip = True
        elif k == "timeout" and e.a[2].op == "fut":
            out.append((i, mk("e", "select", (e.a[2], mk("fut", "sleep", (e.a[1],)))), False))
            skip = True
        elif k in ("selected", "timeout_end", "elapsed"):
            pass
        elif k == "await" and e.a[1] in ("sleep", "recv") and not skip:
            out.append((i, e, True))
    return out


def drained(events, chans):
    """the event, if any, that takes notifications out of one of the channels `chans`"""
    for x in flat(events):
        if x.a[0] == "try_recv" and contains(x.a[1], lambda t: t.op == "chrx" and t.a[0] in chans):
            return x


def waits(ctx, rule="mem-wait"):
    def go():
        s = Stream(ctx)
        if not s.k:
            return
        store = s.store
        sub = store.sublock(SELF)
        chans = set()
        for p in s.subs:
            got = registered(ctx, rule, WHERE, sub, p)
            if got is None:
                ctx.bad(rule, WHERE, "the stream is returned before its notification channel is registered for its executor")
            else:
                chans.add(got)
                ctx.ok(rule, WHERE)
        nsel = 0
        for p in s.paths:
            ctx.check(rule, WHERE, p.kind == "div", "the stream of ready jobs can end" if p.kind in ("ret",) else f"stream path ends with {p.kind}")
        for facts, events, where_ in s.segments():
            for i, e, alone in pauses(events):
                if alone:
                    ctx.bad(rule, WHERE, f"waits for {e.a[1]} alone")
                    continue
                nsel += 1
                one_wait(ctx, rule, s, facts, events, i, e, chans)
        ctx.check(rule, WHERE, nsel > 0 or None, "no wait found in the stream")
    ctx.attempt(rule, WHERE, go)


def attempted(ctx, rule="mem-claim-tried"):
    def go():
        s = Stream(ctx)
        if not s.k:
            return
        for facts, events, where_ in s.segments():
            for i, e, alone in pauses(events):
                tried(ctx, s, facts, events[:i], f"{WHERE} wait", rule)
    ctx.attempt(rule, WHERE, go)


def indirect(s, facts, before):
    """something was read from the stored jobs through a collection that is not followed"""
    srcs = [x.a[2] for x in before if x.a[0] == "pick"] + [x.a[1] for x in before if x.a[0] == "each"] + [a.a[0] for a in facts if a.op == "any"]
    return any(x.op != "data" and contains(x, lambda t: t.op in ("res", "lv", "rec", "unk")) and contains(x, lambda t: t.op == "data" and t.a[0] is s.lock) for x in srcs)


def tried(ctx, s, facts, before, where, rule):
    """before a wait the stream has established that no due job of its executor was left unclaimed"""
    store = s.store
    ns = {x.a[3] for x in before if x.a[0] == "acq" and x.a[1] is s.lock}
    nows = nows_of(list(facts), list(before))
    best = False
    for a, v in facts.items():
        if a.op == "any" and a.a[0].op == "data" and a.a[0].a[0] is s.lock and a.a[0].a[1] in ns and v == frozenset((0,)):
            ej = store.job(mk("elem", a.a[0], a.a[1]))
            d = formula.expand(list(a.a[2]))
            rs = [formula.implies(runnable(ej, EX, now, False, 0), d)[0] for now in nows or [None]]
            if True in rs:
                return ctx.ok(rule, where)
            if None in rs or any(t.op in ("rec", "unk", "res", "lv") for c in d for at, _ in c for t in subterms(at)):
                best = None
    for x in before:
        if x.a[0] != "pick" or x.a[2].op != "data" or x.a[2].a[0] is not s.lock:
            continue
        dnf = formula.expand([c.a[0] for c in x.a[4]])
        ej = store.job(mk("elem", x.a[2], x.a[7]))
        cover = formula.implies(runnable(ej, EX), dnf)[0]
        j = store.job(mk("elem", x.a[2], x.a[3]))
        how, o = x.a[1], x.a[5]
        dr = direction(o, x.a[2], store) if o.a[0] != "iter" else None
        early = (how in ("first", "min") and dr == "asc") or (how in ("last", "max") and dr == "desc")
        future = True in [implied(facts, numcmp("Ge", fld(j, "scheduled_at"), now)) for now in nows]
        if cover and early and future and not x.a[6]:
            return ctx.ok(rule, where)
        if cover is None or (how not in ("first", "min", "last", "max")) or o.a[0] == "unknown":
            best = None
    if best is False and (any(x.a[0] in ("loop", "unk", "callv") for x in before) or indirect(s, facts, before)):
        best = None
    ctx.check(rule, where, best, "waits although a due job of its executor may be stored that it has not tried to claim")


def one_wait(ctx, rule, s, facts, events, i, e, chans):
    store = s.store
    futs = e.a[1]
    recv = [f for f in futs if f.op == "fut" and f.a[0] == "recv"]
    sleep = [f for f in futs if f.op == "fut" and f.a[0] == "sleep"]
    where = f"{WHERE} wait"
    if any(f.op != "fut" for f in futs):
        return ctx.unk(rule, where, f"waits for {short(e)}")
    okr = any(contains(f, lambda t: t.op == "chrx" and t.a[0] in chans) for f in recv)
    ctx.check(rule, where, okr, "does not listen to its own notification channel while waiting")
    if not sleep:
        return ctx.bad(rule, where, "waits for a notification without a time bound")
    d = sleep[0].a[1][0]
    ctx.check(rule, where, implied(facts, numcmp("Le", d, INT(30 * 1000 * MS))) if d.op != "int" else d.a[0] <= 30 * 1000 * MS,
              f"may wait longer than thirty seconds: {short(d)}")
    # what was read before waiting
    before = events[:i]
    reads = [x for x in before if x.a[0] == "acq" and x.a[1] is s.lock]
    if not reads:
        return ctx.bad(rule, where, "waits without having looked at the stored jobs since the last wait")
    ns = {x.a[3] for x in reads}
    if drained(before[before.index(reads[-1]):], chans):
        ctx.bad(rule, where, "takes notifications out of its channel after looking at the stored jobs, and waits without looking again")
    for x in before:
        if x.a[0] in ("await", "select"):
            ctx.bad(rule, where, "waits twice without looking at the stored jobs in between")
    if d.op == "int" and d.a[0] <= 100 * MS:
        return ctx.ok(rule, where)
    best = False
    # either no runnable job of this executor is stored, or the wait ends no later than the earliest one is due
    for a, v in facts.items():
        if a.op == "any" and a.a[0].op == "data" and a.a[0].a[0] is s.lock and a.a[0].a[1] in ns and v == frozenset((0,)):
            ej = store.job(mk("elem", a.a[0], a.a[1]))
            r, w = formula.implies(runnable(ej, EX), formula.expand(list(a.a[2])))
            if r:
                return ctx.ok(rule, where)
            if r is None or contains(a, lambda t: t.op in ("rec", "unk", "res", "lv")):
                best = None
    for x in before:
        if x.a[0] != "pick" or x.a[2].op != "data" or x.a[2].a[0] is not s.lock:
            continue
        dnf = formula.expand([c.a[0] for c in x.a[4]])
        ej = store.job(mk("elem", x.a[2], x.a[7]))
        cover = formula.implies(runnable(ej, EX), dnf)[0]
        j = store.job(mk("elem", x.a[2], x.a[3]))
        how, o = x.a[1], x.a[5]
        dr = direction(o, x.a[2], store) if o.a[0] != "iter" else None
        early = (how in ("first", "min") and dr == "asc") or (how in ("last", "max") and dr == "desc")
        rs = [implied(facts, numcmp("Le", d, lsub(fld(j, "scheduled_at"), now))) for now in nows_of(list(facts), list(before))]
        r = True in rs
        if cover and early and r and not x.a[6]:
            return ctx.ok(rule, where)
        if cover is None or (how not in ("first", "min", "last", "max")) or o.a[0] == "unknown":
            best = None
    if best is False and (indirect(s, facts, before) or is_opaque(d) or any(x.a[0] in ("loop", "unk", "callv") for x in before)):
        best = None
    ctx.check(rule, where, best, f"may wait {short(d)} although a runnable job of its executor could be due earlier")


# ---- locks --------------------------------------------------------------------------------------------


def lock_discipline(ctx, rule="mem-locks"):
    store = Store(ctx.F)
    edges = {}

    def walk(where, events, held):
        held = list(held)
        for e in events:
            k = e.a[0]
            if k == "acq":
                l, m = e.a[1], e.a[2]
                for h, hm in held:
                    if h is l:
                        ctx.bad(rule, where, f"acquires {short(l)} at {e.a[4]} while already holding it")
                    else:
                        edges.setdefault((h, l), (where, e.a[4]))
                held.append((l, m))
            elif k == "rel":
                for x in held:
                    if x[0] is e.a[1]:
                        held.remove(x)
                        break
            elif k in ("await", "select", "yield", "timeout", "joined") and held:
                ctx.bad(rule, where, f"waits ({k} {e.a[1] if len(e.a) > 1 and isinstance(e.a[1], str) else ''}) while holding {short(held[-1][0])}")
            for s in (e.a[2] if k == "loop" else e.a[3] if k in ("spawn", "each") else e.a[4] if k == "sloop" else ()):
                walk(where, s.a[2], [] if k == "spawn" else held)
        return held

    ops = mem_ops(ctx)
    for name, ps in ops:
        for p in ps:
            left = walk(name, p.events, ())
            if p.kind == "ret":
                ctx.check(rule, name, not left, f"returns while still holding {short(left[0][0]) if left else ''}")
    st = ctx.attempt(rule, WHERE, lambda: Stream(ctx))
    for p in st.paths if st else []:
        walk(WHERE, p.events, ())
    # cycles
    graph = {}
    for (a, b), w in edges.items():
        graph.setdefault(a, set()).add(b)

    def reach(a, b, seen=()):
        return b in graph.get(a, ()) or any(reach(x, b, seen + (x,)) for x in graph.get(a, ()) if x not in seen)
    for (a, b), (w, site) in edges.items():
        ctx.check(rule, w, not reach(b, a), f"acquires {short(b)} while holding {short(a)} ({site}), the opposite order of another operation")
    ctx.notes.append("lock order edges: " + "; ".join(f"{short(a)} -> {short(b)}" for a, b in edges))


def mem_ops(ctx):
    """every operation of the in-memory backend with its paths"""
    out = []
    for op in TRANSITIONS:
        out.append(("InMemoryBackend::" + op, trans_paths(ctx, op)[1]))
    out.append(("InMemoryBackend::update_job", trans_paths(ctx, "update_job")[1]))
    for name, crit in (("no criteria", OPT()), ("replace", OPT(uniq.criteria(True, True, True, uniq.replace(uniq.FLAGS))))):
        out.append((f"InMemoryBackend::enqueue {name}", uniq.Run(ctx, crit).paths))
    k = ctx.method(MEM, "prune_jobs", BACKEND)
    if k:
        out.append(("InMemoryBackend::prune_jobs", ctx.run(k, [SELF, SYM("spec")])))
    k = ctx.method(MEM, "query", BACKEND)
    if k:
        out.append(("InMemoryBackend::query", ctx.run(k, [SELF, SYM("query")])))
    k = ctx.method(MEM, "notify_all")
    if k:
        out.append(("InMemoryBackend::notify_all", ctx.run(k, [SELF], await_=False)))
    k = ctx.method(MEM, "subscribe_ready_jobs", BACKEND)
    if k:
        out.append((WHERE, ctx.run(k, [SELF, EX])))
    return out


def poison(ctx, rule="mem-poison"):
    for name, ps in mem_ops(ctx):
        if name == WHERE:
            continue
        for p in ps:
            if any(e.a[0] == "poison" for e in flat(p.events)):
                if p.kind == "panic":
                    ctx.bad(rule, name, "a poisoned lock panics the caller")
                else:
                    ctx.check(rule, name, p.result == "Err" if p.result else None, "a poisoned lock is reported as success")
    st = ctx.attempt(rule, WHERE, lambda: Stream(ctx))
    if not st:
        return
    for p in st.paths:
        if p.kind == "panic":
            ctx.bad(rule, WHERE, "waiting for ready jobs panics on a poisoned lock")
    for facts, events, w in st.segments():
        if any(e.a[0] == "poison" for e in events):
            ys = yields(events)
            ctx.check(rule, WHERE, bool(ys) and all(variant_of(y.a[1], facts, "std::result::Result") == "Err" for _, y in ys), "a poisoned lock is not reported by the stream")
