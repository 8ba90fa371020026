"""Enqueue in the in-memory backend: uniqueness lookup, insertion, conflict resolution."""
from itertools import product

from .core import *
from .mem import SELF, poison_on

U = "rexecutor::job::uniqueness_criteria::"
ENQ = "rexecutor::backend::EnqueuableJob"
J = SYM("job")
KEY, DUR, STS, FOR = SYM("key"), SYM("dur"), SYM("statuses"), SYM("for_statuses")
FLAGS = ("scheduled_at", "data", "metadata", "priority", "max_attempts")
WHERE = "InMemoryBackend::enqueue"


def enq_job(crit):
    return ADT(ENQ, "EnqueuableJob", [(f[0], crit if f[0] == "uniqueness_criteria" else fld(J, f[0])) for f in ADTS[ENQ]["v"][0]["f"]])


def criteria(key=False, executor=False, dur=False, res=None):
    v = {"key": OPT(KEY) if key else OPT(), "executor": INT(executor), "duration": OPT(DUR) if dur else OPT(), "statuses": STS,
         "on_conflict": res or ADT(U + "Resolution", "DoNothing", ())}
    a = ADTS[U + "UniquenessCriteria"]
    return ADT(U + "UniquenessCriteria", "UniquenessCriteria", [(f[0], v[f[0]]) for f in a["v"][0]["f"]])


def replace(flags):
    a = ADTS[U + "Replace"]
    v = {f: INT(f in flags) for f in FLAGS}
    v["for_statuses"] = FOR
    r = ADT(U + "Replace", "Replace", [(f[0], v[f[0]]) for f in a["v"][0]["f"]])
    return ADT(U + "Resolution", "Replace", (("0", r),))


def status_member(e, coll, store):
    bv = mk("bv", 77)
    return mk("any", coll, bv, frozenset([frozenset([(mkeq(fld(store.job(e), "status"), mk("elem", coll, bv)).a[0], frozenset((1,)))])]))


def one(a):
    return [frozenset([(a, frozenset((1,)))])]


def conflict_dnf(store, e, key, executor, dur, now, strict):
    """what it means for the stored element e to conflict"""
    j = store.job(e)
    d = one(status_member(e, STS, store))
    if key:
        k = store.key(e)
        d = formula.conj_and(d, formula.conj_and(formula.of_bool(isin(mkdisc(k, "std::option::Option"), ("Some",))),
                                                 formula.of_bool(numeq(KEY, fld(dc(k, "Some"), "0")))))
    if executor:
        d = formula.conj_and(d, formula.of_bool(mkeq(fld(J, "executor"), fld(j, "executor"))))
    if dur:
        s = fld(j, "scheduled_at")
        op = "Gt" if strict else "Ge"
        d = formula.conj_and(d, formula.conj_and(formula.of_bool(numcmp(op, ladd(lsub(s, now), DUR), INT(0))),
                                                 formula.of_bool(numcmp(op, ladd(lsub(now, s), DUR), INT(0)))))
    return d


def nows(facts, events):
    out = set()
    for a in list(facts) + list(events):
        for x in subterms(a):
            if is_now(x):
                out.add(x)
    return sorted(out, key=lambda t: t.uid)


def jobs_anys(lock, facts):
    """the `any job satisfies ...` atoms known on a path: [(n, atom, truth)]"""
    out = []
    for a, s in facts.items():
        if a.op == "any" and a.a[0].op == "data" and a.a[0].a[0] is lock:
            out.append((a.a[0].a[1], a, 1 in s and 0 not in s))
    return out


def loops_over_jobs(lock, events):
    for e in flat(events):
        if e.a[0] in ("loop", "each", "unk", "callv") and any(x.op == "data" and x.a[0] is lock for x in subterms(e)):
            return True
    return False


class Run:
    def __init__(self, ctx, crit):
        self.store = Store(ctx.F)
        self.lock = self.store.lock(SELF)
        k = ctx.method(MEM, "enqueue", BACKEND)
        self.paths = []
        if k:
            self.paths = ctx.run(k, [SELF, enq_job(crit)])
        self.ok = [p for p in self.paths if p.result == "Ok"]

    def split(self, p):
        """-> ('insert', commit, stored element) | ('keep', commits) | ('odd', text)"""
        cs = commits(self.store, SELF, p.facts, p.events)
        ins = [c for c in cs if c.data is not c.base]
        if not ins:
            return ("keep", cs)
        if len(ins) > 1:
            return ("odd", "several critical sections change the set of stored jobs")
        c = ins[0]
        if c.data.op == "push" and c.data.a[0] is c.base:
            return ("insert", c, c.data.a[1])
        if c.data.op in ("push", "retained", "arr", "comp") and not is_opaque(c.data):
            return ("bad", f"the stored jobs become {short(c.data)}")
        return ("odd", f"the stored jobs become {short(c.data)}")


def cfg_name(key, executor, dur):
    return "criteria(" + ",".join(n for n, v in (("key", key), ("executor", executor), ("duration", dur)) if v) + ")"


CONFIGS = list(product((False, True), repeat=3))


def atomic(ctx, rule="mem-unique-atomic"):
    """lookup and insertion/modification in one critical section; conflict inserts nothing; ids returned"""
    runs = [(cfg_name(*c), criteria(*c)) for c in CONFIGS]
    runs += [("replace(all)", criteria(True, True, True, replace(FLAGS)))]
    for name, crit in runs:
        def go(name=name, crit=crit):
            r = Run(ctx, OPT(crit))
            where = f"{WHERE} {name}"
            ni = nk = 0
            for p in r.ok:
                sp = r.split(p)
                if sp[0] == "odd":
                    ctx.unk(rule, where, sp[1])
                    continue
                if sp[0] == "bad":
                    ctx.bad(rule, where, sp[1])
                    continue
                anys = jobs_anys(r.lock, p.facts)
                if sp[0] == "insert":
                    ni += 1
                    c = sp[1]
                    n = c.base.a[1]
                    same_sec = [a for m, a, t in anys if m == n and not t]
                    if same_sec:
                        ctx.ok(rule, where)
                    elif any(not t for m, a, t in anys):
                        ctx.bad(rule, where, f"inserts under a later lock acquisition than the one under which it looked for a match ({c.ev.a[1]!r} section {n})")
                    else:
                        ctx.check(rule, where, None if loops_over_jobs(r.lock, p.events) else False,
                                  "a path inserts a job without having established that no stored job matches")
                    if any(t for m, a, t in anys):
                        ctx.bad(rule, where, "a path inserts although a matching job was found")
                    ctx.check(rule, where, not c.writes, "inserting also modifies another stored job")
                    ctx.check(rule, where, same(p.facts, p.payload("Ok"), fld(r.store.job(sp[2]), "id")), f"returns {short(p.payload('Ok'))} instead of the inserted job's id")
                else:
                    nk += 1
                    e = returned_elem(r, p)
                    if e is None:
                        ctx.check(rule, where, None if is_opaque(p.val) else False, f"returns {short(p.val)}: neither an inserted nor an existing job's id")
                        continue
                    ctx.ok(rule, where)
                    for c in sp[1]:
                        for w in c.writes:
                            ctx.check(rule, where, w[0].a[0] is e.a[0] and w[0].a[1] is e.a[1],
                                      f"modifies {short(w[1])}, looked up in a different critical section or a different job than the one whose id is returned")
            if r.paths:
                ctx.check(rule, where, ni > 0, "no path inserts a job")
                ctx.check(rule, where, nk > 0, "no path recognises an existing job")
        ctx.attempt(rule, f"{WHERE} {name}", go)


def returned_elem(r, p):
    v = strip_cast(p.payload("Ok"))
    for x in subterms(v):
        if x.op == "elem" and x.a[0].op == "data" and x.a[0].a[0] is r.lock:
            if same(p.facts, v, fld(r.store.job(x), "id")) is True:
                return x
    return None


def conflict(ctx, rule="mem-unique-criteria"):
    """inserts only if no job conflicts; treats a job as existing only if it conflicts"""
    for cfg in CONFIGS:
        def go(cfg=cfg):
            r = Run(ctx, OPT(criteria(*cfg)))
            where = f"{WHERE} {cfg_name(*cfg)}"
            for p in r.ok:
                sp = r.split(p)
                if sp[0] in ("odd", "bad"):
                    ctx.unk(rule, where, sp[1])
                    continue
                if sp[0] == "insert":
                    ne = [a for m, a, t in jobs_anys(r.lock, p.facts) if not t]
                    if not ne:
                        ctx.check(rule, where, None, "no absence of a matching job is established before inserting (judged by C06)")
                        continue
                    best = None
                    for a in ne:
                        e = mk("elem", a.a[0], a.a[1])
                        for now in nows({a: 1}, ()) or [INT(0)]:
                            for strict in (True, False):
                                g, w = formula.implies(conflict_dnf(r.store, e, *cfg, now, strict), a.a[2])
                                if g or best is None or (g is None and best[0] is False):
                                    best = (g, w)
                    ctx.check(rule, where, best[0], lambda: "a job is inserted although a stored job conflicts: " + formula.show_asg(best[1]))
                else:
                    e = returned_elem(r, p)
                    if e is None:
                        ctx.unk(rule, where, "existing job not identified (judged by C06)")
                        continue
                    res = []
                    for now in nows(p.facts, ()) or [INT(0)]:
                        for strict in (True, False):
                            res.append(implied_dnf(p.facts, conflict_dnf(r.store, e, *cfg, now, strict)))
                    ctx.check(rule, where, True if True in res else None if None in res else False,
                              lambda: "a stored job is taken for a duplicate without satisfying every criterion: " + missing(r, p, e, cfg))
        ctx.attempt(rule, f"{WHERE} {cfg_name(*cfg)}", go)


def missing(r, p, e, cfg):
    out = []
    for i, n in enumerate(("key", "executor", "duration")):
        if cfg[i]:
            one_ = [False] * 3
            one_[i] = True
            if not any(implied_dnf(p.facts, conflict_dnf(r.store, e, *one_, now, s)) for now in nows(p.facts, ()) or [INT(0)] for s in (True, False)):
                out.append(n)
    if not implied_dnf(p.facts, one(status_member(e, STS, r.store))):
        out.append("statuses")
    return ", ".join(out)


def stored_key(ctx, rule="mem-unique-key-stored"):
    for cfg in ((True, False, False), (True, True, True), (False, True, False)):
        def go(cfg=cfg):
            r = Run(ctx, OPT(criteria(*cfg)))
            where = f"{WHERE} {cfg_name(*cfg)}"
            for p in r.ok:
                sp = r.split(p)
                if sp[0] == "insert":
                    k = r.store.key(sp[2])
                    want = OPT(KEY) if cfg[0] else OPT()
                    ctx.check(rule, where, same(p.facts, k, want), f"the new job is stored with key {short(k)}")
        ctx.attempt(rule, WHERE, go)


def resolution(ctx, rule="mem-conflict-resolution"):
    combos = [None] + [tuple(f for f, b in zip(FLAGS, bits) if b) for bits in product((0, 1), repeat=len(FLAGS))]
    for fl in combos:
        name = "DoNothing" if fl is None else "Replace(" + ",".join(fl) + ")"

        def go(fl=fl, name=name):
            r = Run(ctx, OPT(criteria(False, True, False, None if fl is None else replace(fl))))
            where = f"{WHERE} {name}"
            allowed = changed = 0
            for p in r.ok:
                sp = r.split(p)
                if sp[0] != "keep":
                    if sp[0] == "insert" and sp[1].writes:
                        ctx.bad(rule, where, "an existing job is changed although no conflict was found")
                    continue
                ws = [w for c in sp[1] for w in c.writes]
                e = returned_elem(r, p)
                if e is None:
                    ctx.unk(rule, where, "existing job not identified (judged by C06)")
                    continue
                infor = implied_dnf(p.facts, one(status_member(e, FOR, r.store)))
                outfor = implied_dnf(p.facts, [frozenset([(status_member(e, FOR, r.store), frozenset((0,)))])])
                got = {}
                odd = False
                for w in ws:
                    fw, other = field_writes(r.store, w)
                    if other:
                        ctx.bad(rule, where, f"writes {other[0][0]} of an existing job")
                        odd = True
                    if w[0].a[1] is not e.a[1]:
                        ctx.bad(rule, where, "changes a job other than the conflicting one")
                        odd = True
                    for f, v in fw.items():
                        if same(w[3], v, fld(r.store.job(w[1]), f)) is not True:
                            got[f] = v
                if odd:
                    continue
                if fl is None or not fl:
                    ctx.check(rule, where, not got, f"an existing job is changed ({', '.join(sorted(got))}) although nothing was to be replaced")
                    allowed += 1
                    continue
                if got:
                    changed += 1
                    ctx.check(rule, where, infor, "an existing job is changed although its status is not known to be one of the replacement statuses")
                    for f, v in got.items():
                        if f not in fl:
                            ctx.bad(rule, where, f"{f} of the existing job is changed although it was not selected")
                        else:
                            ctx.check(rule, where, same(p.facts, v, fld(J, f)), f"{f} := {short(v)} instead of the new job's")
                    for f in fl:
                        ctx.check(rule, where, f in got, f"{f} was selected for replacement but is left unchanged")
                else:
                    ctx.check(rule, where, outfor, "the selected fields are left unchanged on a path where the status may be one of the replacement statuses")
            if fl:
                ctx.check(rule, where, changed > 0, "no path replaces anything")
        ctx.attempt(rule, f"{WHERE} {name}", go)


NEW = {"status": "Scheduled", "attempt": 0}
NAMESAKE = ("executor", "data", "metadata", "max_attempts", "scheduled_at", "tags", "priority")
EMPTY = ("attempted_at", "completed_at", "cancelled_at", "discarded_at")


def stored_fields(ctx, rule="mem-enqueue-fields"):
    """a new job is stored with the fields it was given, fresh otherwise"""
    for name, crit in (("no criteria", OPT()), ("criteria", OPT(criteria(True, True, True))), ("replace", OPT(criteria(False, True, False, replace(FLAGS))))):
        def go(name=name, crit=crit):
            r = Run(ctx, crit)
            where = f"{WHERE} {name}"
            n = 0
            for p in r.ok:
                sp = r.split(p)
                if sp[0] in ("odd",):
                    ctx.unk(rule, where, sp[1])
                    continue
                if sp[0] == "bad":
                    ctx.bad(rule, where, sp[1])
                    continue
                if sp[0] == "keep":
                    if name == "no criteria":
                        ctx.bad(rule, where, "success without storing the job")
                    continue
                n += 1
                j = r.store.job(sp[2])
                for f in NAMESAKE:
                    ctx.check(rule, where, same(p.facts, fld(j, f), fld(J, f)), f"{f} is stored as {short(fld(j, f))}")
                ctx.check(rule, where, same(p.facts, fld(j, "status"), ADT("rexecutor::job::JobStatus", "Scheduled", ())), f"new status {short(fld(j, 'status'))}")
                ctx.check(rule, where, same(p.facts, fld(j, "attempt"), INT(0)), f"new attempt {short(fld(j, 'attempt'))}")
                er = fld(j, "errors")
                ctx.check(rule, where, True if (er.op == "arr" and not er.a[0]) or is_empty(er) else None if is_opaque(er) else False, f"new errors {short(er)}")
                for f in EMPTY:
                    ctx.check(rule, where, same(p.facts, fld(j, f), OPT()), f"new {f} {short(fld(j, f))}")
                ctx.check(rule, where, is_now(fld(j, "inserted_at")), f"inserted_at {short(fld(j, 'inserted_at'))}")
                i = fld(j, "id")
                ctx.check(rule, where, fresh_id(r.store, i), f"id {short(i)} is not drawn from the store's counter")
                ctx.check(rule, where, same(p.facts, p.payload("Ok"), i), f"returns {short(p.payload('Ok'))} instead of the new id")
            ctx.check(rule, where, n > 0 or not r.paths, "no path stores the job")
        ctx.attempt(rule, f"{WHERE} {name}", go)


def is_empty(t):
    return t.op == "app" and t.a[0] in ("vec![]", "empty")


def fresh_id(store, t):
    t = strip_cast(t)
    if store.counter is None:
        return None
    c, d = lparts(t)
    if len(d) == 1:
        (x, k), = d.items()
        if k == 1 and x.op in ("fetch_add", "app") and contains(x, lambda y: y is fld(SELF, store.counter)):
            ints = [y for y in x.a if isinstance(y, int)] if x.op == "fetch_add" else []
            name = x.op if x.op == "fetch_add" else x.a[0]
            if name == "fetch_add":
                inc = x.a[-1] if x.op == "fetch_add" else x.a[1][-1]
                if isinstance(inc, T):
                    inc = inc.a[0] if inc.op == "int" else None
                return None if inc is None else inc > 0
            return False
    return None if is_opaque(t) else False
