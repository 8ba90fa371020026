"""Shared machinery of the property checks: running the analysis, obligations, verdicts, evidence."""
import json
import os
import sys
import time

from engine import formula, models
from engine.facts import Facts
from engine.interp import Bail, INTBITS, Interp, St, Out, diff, evlist
from engine.run import show_out
from engine.terms import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

JOB = "rexecutor::backend::Job"
STATUSES = ("Complete", "Executing", "Scheduled", "Retryable", "Cancelled", "Discarded")
MEM = "rexecutor::backend::memory::InMemoryBackend"
PG = "rexecutor_sqlx::RexecutorPgBackend"
BACKEND = "rexecutor::backend::Backend"


class Undecided(Exception):
    """the construct is outside what the analysis models; the obligation is reported as undecided"""


class Ctx:
    def __init__(self, facts_dir, prop, tier):
        self.F = Facts(facts_dir)
        self.prop = prop
        self.tier = tier
        self.obs = []  # (rule, where, status, detail)
        self.fns = set()
        self.paths = 0
        self.steps = 0
        self.calls = 0
        self.cache = {}
        self.notes = []
        self.at = None  # the function analysed last

    # ---- obligations -------------------------------------------------------------------------
    def ok(self, rule, where, detail=""):
        self.obs.append((rule, where, "ok", detail))

    def bad(self, rule, where, detail):
        at = ""
        f = self.F.raw.get(self.at) if self.at else None
        if f and f.get("span"):
            at = f" (in {f['span'][0]}:{f['span'][1]} {f.get('name')})"
        self.obs.append((rule, where, "violation", detail + at))

    def unk(self, rule, where, detail):
        self.obs.append((rule, where, "undecided", detail))

    def check(self, rule, where, cond, detail=""):
        if cond is None:
            self.unk(rule, where, "" if callable(detail) else detail)
        elif cond:
            self.ok(rule, where)
        else:
            self.bad(rule, where, detail() if callable(detail) else detail)
        return cond

    def attempt(self, rule, where, fn):
        """run one rule; anything the analysis cannot model leaves the obligation undecided"""
        try:
            return fn()
        except (Undecided, Bail) as e:
            self.unk(rule, where, f"{type(e).__name__}: {e}")
        except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            if os.environ.get("VP_DEBUG"):
                raise
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unk(rule, where, f"analysis error {type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
        return None

    # ---- running the analysis ------------------------------------------------------------------
    def method(self, ty, name, trait=None):
        """key of a (trait) method, found by its type, trait and name; None when absent"""
        k = method_key(self.F, ty, name, trait)
        if k is None:
            self.bad("anchor", f"{ty}::{name}", f"the public operation {ty}::{name}" + (f" of {trait}" if trait else "") + " no longer exists")
        return k

    def run(self, key, args, await_=True, budget=2000000):
        ck = (key, tuple(args), await_)
        self.at = key
        if ck in self.cache:
            return self.cache[ck]
        I = Interp(self.F, budget)
        b = self.F.body(key)
        st = St()
        outs = []
        for o in I.run_fn(st, key, list(args)):
            if not await_ or o.kind != "ret":
                outs.append(o)
            else:
                outs += models.run_future(I, o.st, o.val, (b, 0, b.bbs[0]))
        self.account(I, outs)
        ps = [Path(self, I, o, key) for o in outs]
        self.cache[ck] = ps
        return ps

    def account(self, I, outs):
        self.fns |= {v if isinstance(v, str) else str(v) for v in I.visited}
        self.paths += len(outs)
        self.steps += I.steps
        self.calls += I.sites
        for k, n in I.unknown.items():
            self.notes.append(f"unmodelled call {k}")

    def run_more(self, p, fut):
        """continue path p by awaiting the future/generator term fut"""
        b = self.F.body(p.key)
        outs = models.run_future(p.I, p.out.st, fut, (b, 0, b.bbs[0]))
        self.account(p.I, outs)
        return [Path(self, p.I, o, p.key) for o in outs]


def method_key(F, ty, name, trait=None):
    c = []
    for k, f in F.raw.items():
        if f.get("name") != name or "{closure" in k or "promoted[" in k or "@" in k:
            continue
        if f.get("kind") not in ("AssocFn", "Fn"):
            continue
        if trait is not None:
            if f.get("trait") != trait:
                continue
            if base(f.get("self") or "") != ty:
                continue
        else:
            if f.get("trait"):
                continue
            if f.get("intrait"):
                if f["intrait"] != ty:
                    continue
            elif base(f.get("self") or "") != ty:
                continue
        if not f.get("local"):
            continue
        c.append(k)
    c = [k for k in c if "<[" not in k] or c
    return sorted(c, key=len)[0] if c else None


def base(ty):
    ty = ty.strip()
    while ty.startswith("&"):
        ty = ty[1:].strip()
        if ty.startswith("mut "):
            ty = ty[4:]
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1] if " " in ty else ty
    return ty.split("<")[0]


class Path:
    """one abstract path through an operation"""

    def __init__(self, ctx, I, out, key):
        self.ctx = ctx
        self.I = I
        self.out = out
        self.key = key
        self.kind = out.kind
        self.facts = out.st.facts
        self.val = I.resolve(out.st, out.val) if out.val is not None else None
        self.events = evlist(out.st.ev)

    @property
    def result(self):
        """'Ok' | 'Err' | None"""
        if self.kind != "ret":
            return None
        return variant_of(self.val, self.facts, "std::result::Result")

    def payload(self, variant):
        return fld(dc(self.val, variant), "0")

    def describe(self):
        return show_out(self.out)

    def segments(self):
        """[(facts, events)] of the path itself and of every loop body / task / stream item in it"""
        return [(f, e) for f, e, _ in segs(self.facts, self.events, ())]


def segs(facts, events, where):
    out = [(facts, tuple(events), where)]
    for e in events:
        k = e.a[0]
        if k == "loop":
            for t in e.a[2]:
                f = dict(facts)
                f.update(t.a[1])
                out += segs(f, t.a[2], where + (e,))
        elif k == "spawn":
            for s in e.a[3]:
                f = dict(facts)
                f.update(s.a[1])
                out += segs(f, s.a[2], where + (e,))
        elif k == "sloop":
            for s in e.a[4]:
                f = dict(facts)
                f.update(s.a[1])
                out += segs(f, s.a[2], where + (e,))
        elif k == "each":
            for s in e.a[3]:
                f = dict(facts)
                f.update(s.a[1])
                out += segs(f, s.a[2], where + (e,))
    return out


def flat(events):
    """every event, nested ones included"""
    for e in events:
        yield e
        k = e.a[0]
        subs = e.a[2] if k == "loop" else e.a[3] if k in ("spawn", "each") else e.a[4] if k == "sloop" else ()
        for s in subs:
            yield from flat(s.a[2])


def variant_of(v, facts, path=None):
    if v is None:
        return None
    if v.op == "adt":
        return v.a[1]
    if path:
        d = mkdisc(v, path)
        if d.op == "adt" or d.op == "str":
            return d.a[-1]
        s = facts.get(d)
        if isinstance(s, frozenset) and len(s) == 1:
            return next(iter(s))
    return None


# ---- facts ----------------------------------------------------------------------------------------


def implied(facts, b):
    """does the path condition imply the boolean term b?  True / False (definitely not implied) / None"""
    dnf = [frozenset(facts.items())]
    goal = formula.of_bool(b)
    return implied_dnf(facts, goal)


OPAQUE = ("opq", "res", "havoc", "bot", "lv", "endof", "rest")


def rewrite(x, f):
    """replace, outermost first, every term for which f gives something (no care for binders)"""
    if isinstance(x, T):
        r = f(x)
        if r is not None:
            return r
        a2 = tuple(rewrite(y, f) for y in x.a)
        return x if a2 == x.a else rebuild(x.op, a2)
    if isinstance(x, tuple):
        return tuple(rewrite(y, f) for y in x)
    if isinstance(x, frozenset):
        return frozenset(rewrite(y, f) for y in x)
    return x


def is_opaque(t):
    return contains(t, lambda x: x.op in OPAQUE)


def _vars(a):
    return set(lparts(a.a[0])[1]) if a.op == "sgn" else set()


def relevant(facts, goal):
    """restrict facts to the atoms that can matter for goal (bound variables already canonical)"""
    atoms = set()
    for c in goal:
        for a, _ in c:
            atoms.add(a)
    vs = set()
    srcs = set()
    for a in atoms:
        vs |= _vars(a)
        if a.op == "any":
            srcs.add(a.a[0])
    out = []
    for a, s in facts.items():
        a, s = formula.alpha(a), formula.alpha(s)
        if a in atoms or (a.op == "any" and a.a[0] in srcs):
            out.append((a, s))
        elif a.op == "sgn" and _vars(a) & vs:
            out.append((a, s))
        elif a.op == "sat" and len(a.a) == 1 and any(x in atoms or _vars(x) & vs or (x.op == "any" and x.a[0] in srcs) for c in a.a[0] for x, _ in c):
            out.append((a, s))
    return out


def implied_dnf(facts, goal):
    goal = [frozenset(formula.alpha(c)) for c in formula.expand(goal)]
    f = formula.expand([frozenset(relevant(facts, goal))])
    r, w = formula.implies(f, goal)
    return r


def same(facts, a, b):
    """are two terms equal under the path condition (numeric equality and known variants included)?"""
    a, b = strip_cast(a), strip_cast(b)
    if a is b:
        return True
    if a.op == "adt" and b.op == "adt":
        if a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            rs = [same(facts, x, y) for (_, x), (_, y) in zip(a.a[2], b.a[2])]
            return False if False in rs else None if None in rs else True
        return False
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and not x.a[2]:
            s = facts.get(mkdisc(y, x.a[0]))
            if isinstance(s, frozenset):
                if s == frozenset((x.a[1],)):
                    return True
                if x.a[1] not in s:
                    return False
    e = mkeq(a, b)
    if e is TRUE:
        return True
    if e is FALSE:
        return False
    n = numeq(a, b) if numericish(a) and numericish(b) else None
    for g in (e, n):
        if g is None:
            continue
        if g is TRUE:
            return True
        if g.op in ("in",):
            s = facts.get(g.a[0])
            if s is not None and s == g.a[1]:
                return True
    if is_opaque(a) or is_opaque(b):
        return None
    return False


def numericish(t):
    return t.op in ("int", "lin", "fld", "now", "ncast", "elem", "sym", "app")


def strip_cast(t):
    """drop numeric casts that cannot change a value in the domain (all of the source type, or 0..=65535)"""
    while t.op in ("ncast",):
        lo, hi = _irange(t.a[0])
        if not (lo <= 0 and hi >= 65535):
            slo, shi = _irange(t.a[1])
            if not (lo <= slo and shi <= hi):
                break
        t = t.a[-1]
    return t


def _irange(ty):
    if ty in ("f64", "f32"):
        return (-(1 << 24), 1 << 24)
    bits, signed = INTBITS.get(ty, (128, 1))
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def is_now(t):
    return t.op == "app" and t.a[0] == "now"


def some(t):
    """payload of a literal Some, else None"""
    if t.op == "adt" and t.a[0] == "std::option::Option" and t.a[1] == "Some":
        return t.a[2][0][1]
    return None


def is_none(t):
    return t.op == "adt" and t.a[0] == "std::option::Option" and t.a[1] == "None"


def variant_lit(t):
    return t.a[1] if t.op == "adt" else None


def short(t, n=160):
    s = show(t)
    return s if len(s) <= n else s[:n] + "…"


# ---- the in-memory store ---------------------------------------------------------------------------


class Store:
    """where the in-memory backend keeps its jobs, read off the type of the backend struct"""

    def __init__(self, F):
        a = ADTS.get(MEM)
        if not a:
            raise Undecided("no in-memory backend type")
        self.jobs = None
        self.subs = None
        self.paused = None
        self.counter = None
        for f in a["v"][0]["f"]:
            n, ty = f[0], f[1]
            if "Lock<" in ty or "Mutex<" in ty:
                inner = ty
                if "Sender<" in ty:
                    self.subs = n
                elif self.mentions(inner, JOB):
                    self.jobs = n
                    self.elem_ty = inner
            elif "Atomic<bool>" in ty or "AtomicBool" in ty:
                self.paused = n
            elif "Atomic" in ty:
                self.counter = n
        if self.jobs is None or self.subs is None:
            raise Undecided("the in-memory backend no longer keeps its jobs and subscribers behind locks of its own")
        # path from a stored element to the job and to its uniqueness key
        self.jobp, self.keyp = (), None
        e = self.elem_adt(self.elem_ty)
        if e and e != JOB:
            for f in ADTS[e]["v"][0]["f"]:
                if f[1] == JOB:
                    self.jobp = (f[0],)
                elif f[1].startswith("std::option::Option<"):
                    self.keyp = (f[0],)

    def mentions(self, ty, target, depth=0):
        if target in ty:
            return True
        e = self.elem_adt(ty)
        if e and depth < 3 and e != target:
            return any(self.mentions(f[1], target, depth + 1) for f in ADTS[e]["v"][0]["f"])
        return False

    def elem_adt(self, ty):
        import re
        for m in re.findall(r"[A-Za-z_0-9:]+", ty):
            if m.startswith("rexecutor") and m in ADTS and ADTS[m]["local"]:
                return m
        return None

    def lock(self, selft):
        return fld(selft, self.jobs)

    def sublock(self, selft):
        return fld(selft, self.subs)

    def job(self, e):
        for k in self.jobp:
            e = fld(e, k)
        return e

    def key(self, e):
        if self.keyp is None:
            raise Undecided("no uniqueness key is stored next to the job")
        for k in self.keyp:
            e = fld(e, k)
        return e


class Commit:
    """what one critical section over the jobs did to them"""

    def __init__(self, facts, ev, idx, writes, data, base):
        self.facts = facts
        self.ev = ev
        self.idx = idx
        self.writes = writes  # [(E root, old elem term, new value, facts)]
        self.data = data
        self.base = base

    @property
    def pure(self):
        return not self.writes and self.data is self.base


def commits(store, selft, facts, events):
    """critical sections (write mode) over the jobs lock in a segment, with element writes"""
    lock = store.lock(selft)
    out = []
    eachw = []
    for i, e in enumerate(events):
        k = e.a[0]
        if k == "each":
            for s in e.a[3]:
                for r, v in s.a[5]:
                    f = dict(facts)
                    f.update(s.a[1])
                    eachw.append((r, v, f))
        if k == "rel" and e.a[1] is lock and e.a[2] == "w":
            n, data, ws = e.a[3], e.a[4], e.a[5]
            b = mk("data", lock, n)
            writes = []
            for r, v in ws:
                old = mk("elem", r.a[0], r.a[1])
                if v is not old:
                    writes.append((r, old, v, facts))
            for r, v, f in eachw:
                old = mk("elem", r.a[0], r.a[1])
                if v is not old:
                    writes.append((r, old, v, f))
            eachw = []
            out.append(Commit(facts, e, i, writes, data, b))
    return out


def field_writes(store, w):
    """{job field: new value} and [other differing paths] of one element write"""
    r, old, new, facts = w
    out, other = {}, []
    for path, a, b in diff(old, new):
        if path[: len(store.jobp)] == store.jobp and len(path) >= len(store.jobp) + 1:
            p = path[len(store.jobp):]
            out[p[0]] = b if len(p) == 1 else None
            if len(p) > 1:
                out[p[0]] = mk("part", p, b)
        elif path == store.jobp and store.jobp:
            # whole job replaced
            base_job = store.job(old)
            for f in ADTS[JOB]["v"][0]["f"]:
                x, y = fld(base_job, f[0]), fld(b, f[0])
                if x is not y:
                    out[f[0]] = y
        else:
            other.append((path, b))
    return out, other


# ---- verdict ------------------------------------------------------------------------------------


def load_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: "):
                # finding: property=<id> rule=<rule> where=<where> :: text
                head, _, text = l[len("finding: "):].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 2))
                out.append((d["property"], d["rule"], d["where"], text))
    return out


def finish(ctx, level, technique, extra, t0):
    fnd = [f for f in load_findings() if f[0] == ctx.prop]
    viol, known, und = [], {}, []
    seen = set()
    for rule, where, status, detail in ctx.obs:
        if status == "violation":
            k = [f for f in fnd if f[1] == rule and f[2] == where]
            if k:
                known[(rule, where)] = k[0][3]
            elif (rule, where, detail) not in seen:
                seen.add((rule, where, detail))
                viol.append((rule, where, detail))
        elif status == "undecided":
            und.append((rule, where, detail))
    n_ok = sum(1 for o in ctx.obs if o[2] == "ok")
    rules = {}
    for rule, where, status, detail in ctx.obs:
        rules.setdefault(rule, {"ok": 0, "violation": 0, "undecided": 0})[status] += 1
    from .texts import RULES
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": level,
        "coverage": {
            "explanation": technique,
            "functions_analysed": len(ctx.fns),
            "paths_analysed": ctx.paths,
            "blocks_interpreted": ctx.steps,
            "obligations_total": len(ctx.obs),
            "obligations_held": n_ok,
            "obligations_undecided": len(und),
            "undecided": [f"{r} at {w}: {d}"[:300] for r, w, d in und][:40],
            "rules": {r: dict(c, text=RULES.get(r, "")) for r, c in sorted(rules.items())},
            "analysed": sorted({o[1] for o in ctx.obs})[:80],
            "functions": sorted(ctx.fns)[:300],
            "known_findings": sorted(f"{r} at {w}" for r, w in known),
        },
        "assumptions": extra,
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    for (r, w), text in sorted(known.items()):
        print(f"KNOWN-FINDING: property={ctx.prop} {text} [{r} at {w}]")
    for r, w, d in und[:20]:
        print(f"undecided: {r} at {w}: {d}"[:300])
    print(f"{ctx.prop}: {n_ok} obligations hold, {len(viol)} violated, {len(und)} undecided, {len(known)} known; "
          f"{len(ctx.fns)} functions, {ctx.paths} paths, {time.time() - t0:.1f}s")
    if viol:
        d = os.path.join(VERIF, "work", "replay")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, ctx.prop + ".txt")
        with open(rp, "w") as f:
            for r, w, dt in viol:
                f.write(f"rule {r}: {RULES.get(r, '')}\nwhere {w}\n{dt}\n\n")
        for r, w, dt in viol[:10]:
            print(f"  {r} at {w}: {dt}"[:700])
        print(f"VIOLATION property={ctx.prop} replay={rp}")
        return 1
    return 0


def kept_all(v, src, facts):
    """does the collection v hold one element for every element of src?  True, a description of what is left out, or None"""
    if v is src:
        return True
    if v.op != "comp" or v.a[0] is not src:
        return None
    if v.a[3]:
        return "only part of the elements is passed on"
    fresh = mk("bv", 7777)
    v, src = formula.alpha(v), formula.alpha(src)
    keep = [subst(frozenset(c), {v.a[4]: fresh}) for c, _ in v.a[1]]
    for a, s in facts.items():
        if a.op == "any" and s == frozenset((0,)):
            a = formula.alpha(a)
            if a.op == "any" and a.a[0] is src:
                keep += [subst(frozenset(c), {a.a[1]: fresh}) for c in a.a[2]]
    ok, w = formula.implies([frozenset()], keep)
    if ok is None:
        return None
    return True if ok else "elements are left out, e.g. when " + formula.show_asg(w)[:200]
