"""Backoff: an interval analysis for panics and a path-by-path comparison of the value (C25)."""
from .core import *
from engine.models import TDMAX, INTBITS, NS, int_range

B = "rexecutor::backoff::"
STRATEGY = B + "Strategy"
SELF, ATT = SYM("self"), SYM("attempt")
FULL = (-(10**60), 10**60)
SAT = (TDMAX, -TDMAX)


# ---- intervals ------------------------------------------------------------------------------------


class Box:
    """ranges of terms from the types of the inputs and the path's facts about single terms"""

    def __init__(self, facts, selfty, syms=()):
        self.facts = facts
        self.selfty = selfty
        self.syms = dict(syms)
        self.memo = {}

    def typ(self, t):
        if t is SELF:
            return self.selfty
        if t is ATT:
            return "u16"
        if t in self.syms:
            return self.syms[t]
        if t.op == "fld":
            b = self.typ(t.a[0])
            if b is None:
                return None
            v = None
            if isinstance(b, tuple):
                b, v = b
            if b.startswith("std::option::Option<"):
                return b[len("std::option::Option<"):-1]
            a = ADTS.get(base(b))
            if not a:
                return None
            for var in a["v"]:
                if v is None or var["n"] == v:
                    for f in var["f"]:
                        if f[0] == t.a[1]:
                            return f[1]
            return None
        if t.op == "dc":
            b = self.typ(t.a[0])
            return (b, t.a[1]) if b else None
        if t.op == "app" and t.a[0] == "Strategy::backoff":
            return "chrono::TimeDelta"
        return None

    def rng(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.raw(t)
            r = self.clip(t, r)
            self.memo[t] = r
        return r

    def raw(self, t):
        if t.op == "int":
            return t.a[0], t.a[0]
        if t.op == "lin":
            c, d = lparts(t)
            lo = hi = c
            for k, v in d.items():
                a, b = self.rng(k)
                lo += min(a * v, b * v)
                hi += max(a * v, b * v)
            return lo, hi
        ty = self.typ(t)
        if isinstance(ty, str):
            if ty.startswith("chrono::TimeDelta"):
                return -TDMAX, TDMAX
            if ty in INTBITS:
                return int_range(ty)
        if t.op == "ncast" and t.a[0] in INTBITS:
            lo, hi = int_range(t.a[0])
            a, b = self.rng(t.a[-1])
            return (a, b) if lo <= a and b <= hi else (lo, hi)
        if t.op == "sat":
            lo, hi = int_range(t.a[0])
            a, b = self.rng(t.a[1])
            return max(lo, min(a, hi)), min(hi, max(b, lo))
        if t.op == "app":
            n, args = t.a[0], t.a[1]
            if n.startswith("td_num_") and n[7:] in NS:
                a, b = self.rng(args[0])
                u = NS[n[7:]]
                return max(trunc(a, u), -(2**63)), min(trunc(b, u), 2**63 - 1)
            if n in ("abs", "int_saturating_abs", "int_unsigned_abs", "int_abs", "td_abs"):
                a, b = self.rng(args[0])
                lo = 0 if a <= 0 <= b else min(abs(a), abs(b))
                hi = max(abs(a), abs(b))
                if n == "int_saturating_abs":
                    hi = min(hi, 2**63 - 1)
                return lo, hi
            if n == "Mul":
                a, b = self.rng(args[0])
                c, d = self.rng(args[1])
                ps = (a * c, a * d, b * c, b * d)
                return min(ps), max(ps)
            if n == "pow":
                a, b = self.rng(args[0])
                c, d = self.rng(args[1])
                if c >= 0 and a >= 0:
                    return (1 if a >= 1 else 0), min(b ** min(d, 300), 10**60)
                return FULL
            if n == "rand":
                r = args[0]
                if r.op == "adt":
                    f = dict(r.a[2])
                    lo = self.rng(f["start"])[0] if "start" in f else FULL[0]
                    hi = self.rng(f["end"])[1] if "end" in f else FULL[1]
                    return lo, hi
            if n.startswith("int_") and ty in INTBITS:
                return int_range(ty)
        return FULL

    def clip(self, t, r):
        lo, hi = r
        for a, s in self.facts.items():
            if a.op == "fits" and a.a[0] is t and s == frozenset((1,)):
                lo, hi = max(lo, a.a[1]), min(hi, a.a[2])
            elif a.op == "tdfits" and s == frozenset((1,)):
                if a.a[0] is t:
                    lo, hi = max(lo, -TDMAX), min(hi, TDMAX)
                else:
                    c, d = lparts(a.a[0])
                    if len(d) == 1 and t in d and d[t]:
                        k = d[t]
                        x, y = sorted(((-TDMAX - c) / k, (TDMAX - c) / k)) if abs(k) < 1 else sorted((-(-(-TDMAX - c) // k), (TDMAX - c) // k))
                        lo, hi = max(lo, x), min(hi, y)
            elif a.op == "sgn" and isinstance(s, frozenset):
                c, d = lparts(a.a[0])
                if len(d) == 1 and t in d:
                    k = d[t]
                    p = -c / k if c % k else -c // k
                    sg = frozenset(x * (1 if k > 0 else -1) for x in s)
                    if 1 not in sg:
                        hi = min(hi, p if 0 in sg else (p - 1 if isinstance(p, int) else p))
                    if -1 not in sg:
                        lo = max(lo, p if 0 in sg else (p + 1 if isinstance(p, int) else p))
        return lo, hi

    def feasible(self):
        for a, s in self.facts.items():
            if a.op == "sgn":
                lo, hi = Box(self.without(a), self.selfty, self.syms).rng(a.a[0])
                poss = set()
                if lo < 0:
                    poss.add(-1)
                if hi > 0:
                    poss.add(1)
                if lo <= 0 <= hi:
                    poss.add(0)
                if isinstance(s, frozenset) and not poss & s:
                    return False
            elif a.op in ("fits", "tdfits"):
                b = Box(self.without(a), self.selfty, self.syms)
                lo, hi = b.rng(a.a[0])
                x, y = (a.a[1], a.a[2]) if a.op == "fits" else (-TDMAX, TDMAX)
                if s == frozenset((0,)) and x <= lo and hi <= y:
                    return False
                if s == frozenset((1,)) and (hi < x or lo > y):
                    return False
        return formula.lin_feasible(self.lin())

    def lin(self, extra=()):
        """the sign facts with the ranges of their variables and overflows as sign facts"""
        out = [(a, s) for a, s in self.facts.items() if a.op == "sgn"] + list(extra)
        vs = set()
        for a, s in self.facts.items():
            if a.op in ("fits", "tdfits") and a.a[0].op != "int":
                x, y = (a.a[1], a.a[2]) if a.op == "fits" else (-TDMAX, TDMAX)
                t = a.a[0]
                if s == frozenset((1,)):
                    out += [(mk("sgn", lsub(t, INT(x))), frozenset((0, 1))), (mk("sgn", lsub(t, INT(y))), frozenset((0, -1)))]
                elif s == frozenset((0,)):
                    lo, hi = self.rng(t)
                    if lo >= x:
                        out.append((mk("sgn", lsub(t, INT(y))), frozenset((1,))))
                    elif hi <= y:
                        out.append((mk("sgn", lsub(t, INT(x))), frozenset((-1,))))
        for a, s in out:
            vs |= set(lparts(a.a[0])[1])
        for v in vs:
            lo, hi = self.rng(v)
            if lo > FULL[0]:
                out.append((mk("sgn", lsub(v, INT(int(lo)))), frozenset((0, 1))))
            if hi < FULL[1]:
                out.append((mk("sgn", lsub(v, INT(int(hi)))), frozenset((0, -1))))
        return [x for x in out if lparts(x[0].a[0])[1]]

    def without(self, a):
        return {k: v for k, v in self.facts.items() if k is not a}

    def tangled(self, t):
        """does a fact relate several of the term's inputs, so that its box is not attained?"""
        ls = leaves(t)
        for a, s in self.facts.items():
            if t.op != "lin" and contains(a, lambda x: x is t):
                continue  # about the result of this very computation, so later
            if a.op == "sgn":
                c, d = lparts(a.a[0])
                if len(d) > 1 and leaves(a.a[0]) & ls:
                    return True
            elif a.op in ("fits", "tdfits") and a.a[0].op != "int" and leaves(a.a[0]) & ls:
                return True
        return False


def trunc(x, u):
    return int(abs(x)) // u * (1 if x >= 0 else -1)


def leaves(t):
    out = set()

    def go(x):
        if x.op in ("sym", "fld"):
            out.add(x)
        elif x.op == "app" and x.a[0] == "Strategy::backoff":
            out.add(x)
        else:
            for y in x.a:
                if isinstance(y, T):
                    go(y)
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            go(z)
                        elif isinstance(z, tuple):
                            for w in z:
                                if isinstance(w, T):
                                    go(w)
    go(t)
    return out


def le(facts, box, a, b):
    """a ≤ b: True / False / None"""
    d = lsub(b, a)
    lo, hi = box.rng(d)
    if lo >= 0:
        return True
    g = numcmp("Le", a, b)
    if g is TRUE:
        return True
    if g is FALSE:
        return False
    if implied(facts, g):
        return True
    return not formula.lin_feasible(box.lin([(mk("sgn", lsub(a, b)), frozenset((1,)))]))


# ---- panics ---------------------------------------------------------------------------------------


def panics(ctx, rule, where, p, box):
    if p.kind != "ret":
        info = p.out.info
        ctx.bad(rule, where, f"computing the delay ends with {p.kind}: {info if isinstance(info, str) else short(info) if info is not None else ''}; {wit(p.facts)}")
        return
    for e in p.events:
        if e.a[0] != "maypanic":
            continue
        kind, v, site = e.a[1], e.a[2], e.a[3]
        r = safe(kind, v, box)
        if r is False:
            r = None if box.tangled(v if v.op != "in" else v.a[0]) else False
        ctx.check(rule, where, r, f"{kind} at {site} can panic: {short(v)}")


def safe(kind, v, box):
    if kind == "random_range":
        f = dict(v.a[2]) if v.op == "adt" else {}
        if "start" not in f or "end" not in f:
            return None
        lo, hi = box.rng(lsub(f["end"], f["start"]))
        return lo >= (0 if "Inclusive" in v.a[0] else 1)
    if kind.startswith("Overflow") or v.op == "in" or v.op in ("not",):
        if v.op == "in" and v.a[0].op == "sgn":
            lo, hi = box.rng(v.a[0].a[0])
            s = v.a[1]
            return not ((-1 in s and lo < 0) or (1 in s and hi > 0) or (0 in s and lo <= 0 <= hi))
        if v.op == "in" and v.a[0].op == "fits":
            lo, hi = box.rng(v.a[0].a[0])
            fit = v.a[0].a[1] <= lo and hi <= v.a[0].a[2]
            return fit if v.a[1] == frozenset((0,)) else None
        if v is FALSE:
            return True
        return None
    if kind.startswith("time ") or kind.startswith("TimeDelta::"):
        lo, hi = box.rng(v)
        return -TDMAX <= lo and hi <= TDMAX
    if kind.startswith("pow overflow "):
        a, b = int_range(kind.split()[-1])
        lo, hi = box.rng(v)
        return a <= lo and hi <= b
    if kind.startswith("abs "):
        return box.rng(v)[0] > int_range(kind.split()[-1])[0]
    return None


def wit(facts):
    return "when " + ", ".join(f"{short(a, 60)} is {sorted(map(str, s)) if isinstance(s, frozenset) else s}" for a, s in list(facts.items())[:5])


# ---- values ---------------------------------------------------------------------------------------


def sec(t):
    return lmul(t, 10**9)


FORMS = {
    # strategy: exact values that count as the documented one
    "Linear": lambda: [APP("Mul", *sorted((ATT, fld(SELF, "factor")), key=lambda t: t.uid))],
    "Polynomial": lambda: [mulm(fld(SELF, "factor"), APP("pow", ATT, fld(SELF, "power")))],
    "Exponential": lambda: [sec(APP("pow", APP("td_num_seconds", fld(SELF, "base")), ATT))],
}


def mulm(a, b):
    return APP("Mul", *sorted((a, b), key=lambda t: t.uid))


def uncast(t):
    return rewrite(t, lambda x: uncast(x.a[-1]) if x.op == "ncast" and x.a[0] in INTBITS and x.a[1] in INTBITS else None)


def unfit(facts, e):
    """does the path know that the exact value, or part of it, overflows?"""
    for a, s in facts.items():
        if a.op in ("fits", "tdfits") and s == frozenset((0,)):
            return True
    return False


def strategies(ctx, rule="backoff-value", prule="backoff-total"):
    for name in ("Constant", "Linear", "Polynomial", "Exponential"):
        ctx.attempt(rule, name, lambda: one(ctx, rule, prule, name))


def one(ctx, rule, prule, name):
    k = ctx.method(B + name, "backoff", STRATEGY)
    if k is None:
        return
    for p in ctx.run(k, [SELF, ATT], await_=False):
        box = Box(p.facts, B + name)
        if not box.feasible():
            continue
        panics(ctx, prule, name, p, box)
        if p.kind != "ret":
            continue
        r = uncast(p.val)
        if name == "Constant":
            ctx.check(rule, name, r is fld(SELF, "delay"), lambda: f"the delay is {short(r)}")
            continue
        value(ctx, rule, name, p, box, r)


def value(ctx, rule, name, p, box, r):
    mx = fld(SELF, "max")
    d = variant_of(mx, p.facts, "std::option::Option")
    exact = FORMS[name]()
    if d is None:
        lo, hi = box.rng(ATT)
        ctx.check(rule, name, None if (lo, hi) != (0, 65535) else False, "the delay is decided without looking at the maximum")
        return
    m = fld(dc(mx, "Some"), "0")
    ms = [m, sec(APP("td_num_seconds", m))]
    facts = {uncast(a): s for a, s in p.facts.items()}
    if d == "Some" and any(r is x for x in ms):
        # the maximum may be returned only if the value reaches it
        ok = unfit(facts, r) or any(le(facts, box, x, e) for x in ms for e in exact) or any(
            le(facts, box, x, s_) for x in ms for s_ in satforms(name, facts)) or any(INT(TDMAX) is x for x in exact)
        ctx.check(rule, name, ok if ok else (None if not related(facts, m) else False), lambda: f"the maximum is returned although the value may be smaller; {wit(p.facts)}")
        return
    forms = exact + satforms(name, facts)
    if r.op == "int" and abs(r.a[0]) >= TDMAX - 10**9:
        # saturated: only where the exact value overflows, and on its side
        if not unfit(facts, r):
            return ctx.check(rule, name, False, lambda: f"the delay saturates although the value fits; {wit(p.facts)}")
        neg = facts.get(mk("sgn", fld(SELF, "factor"))) if name != "Exponential" else None
        if neg is not None and isinstance(neg, frozenset):
            if neg == frozenset((-1,)):
                ctx.check(rule, name, r.a[0] < 0, "a negative delay saturates to the largest one")
            elif -1 not in neg:
                ctx.check(rule, name, r.a[0] > 0, "a positive delay saturates to the smallest one")
        if d == "Some":
            ctx.check(rule, name, any(le(facts, box, r, x) for x in ms), lambda: f"the saturated delay exceeds the maximum; {wit(p.facts)}")
        ctx.ok(rule, name)
        return
    hit = [f for f in forms if f is r]
    if not hit:
        if numericish(r) and not is_opaque(r) and not contains(r, lambda x: x.op == "app" and (x.a[0].startswith(("f", "int_", "td_", "wrapping")) and x.a[0] != "td_num_seconds")):
            s_ = [same(facts, r, f) for f in forms]
            if True in s_:
                ctx.ok(rule, name)
            else:
                return ctx.bad(rule, name, f"the delay is {short(r)}; {wit(p.facts)}")
        else:
            return ctx.unk(rule, name, f"the delay is {short(r)}")
    if d == "Some":
        ctx.check(rule, name, any(le(facts, box, r, x) for x in ms), lambda: f"the delay {short(r)} exceeds the maximum; {wit(p.facts)}")
    ctx.ok(rule, name)


def satforms(name, facts):
    out = []
    if name == "Polynomial":
        pw = APP("pow", ATT, fld(SELF, "power"))
        for t in ("i32", "u32", "i64"):
            out.append(mulm(fld(SELF, "factor"), mk("sat", t, pw)))
        for a, s in facts.items():
            if a.op == "fits" and a.a[0] is pw and s == frozenset((0,)):
                out.append(lmul(fld(SELF, "factor"), 2**31 - 1))
    if name == "Exponential":
        pw = APP("pow", APP("td_num_seconds", fld(SELF, "base")), ATT)
        out.append(sec(mk("sat", "i64", pw)))
    return out


def related(facts, m):
    return any(a.op == "sgn" and contains(a, lambda x: x is m) for a in facts)


# ---- composition ------------------------------------------------------------------------------------


def compose(ctx, rule="backoff-order", prule="backoff-total"):
    ctx.attempt(rule, "BackoffStrategy", lambda: composed(ctx, rule, prule))


def composed(ctx, rule, prule):
    where = "BackoffStrategy"
    k = ctx.method(B + where, "backoff", STRATEGY)
    if k is None:
        return
    ps = ctx.run(k, [SELF, ATT], await_=False)
    for p in ps:
        box = Box(p.facts, B + where)
        if not box.feasible():
            continue
        panics(ctx, prule, where, p, box)
        if p.kind == "ret":
            ctx.attempt(rule, where, lambda: path_value(ctx, rule, where, p, box))


def path_value(ctx, rule, where, p, box):
    facts, r = p.facts, p.val
    off, jit, mn = fld(SELF, "additional_offset"), fld(SELF, "jitter"), fld(SELF, "min")
    calls = [e for e in p.events if e.a[0] == "tcall" and e.a[1] == "Strategy::backoff"]
    v0 = APP("Strategy::backoff", fld(SELF, "strategy"), ATT)
    for e in calls:
        ctx.check(rule, where, e.a[2] == (fld(SELF, "strategy"), ATT), lambda: f"the strategy is asked for {short(mk('e', *e.a[2]))}")
    if not calls:
        return ctx.bad(rule, where, f"the strategy is not asked; {wit(facts)}")
    # offset
    d = variant_of(off, facts, "std::option::Option")
    if d is None:
        return ctx.bad(rule, where, "the configured offset is ignored")
    o = fld(dc(off, "Some"), "0")
    if d == "None":
        v1 = v0
    else:
        v1 = clamp(facts, ladd(v0, o), o)
    # jitter
    d = variant_of(jit, facts, "std::option::Option")
    if d is None:
        return ctx.bad(rule, where, "the configured jitter is ignored")
    if d == "None":
        v2 = v1
        if contains(r, israndt):
            return ctx.bad(rule, where, "a random amount is added although no jitter is configured")
    else:
        j = fld(dc(jit, "Some"), "0")
        rands = {x for t in [r] + list(facts) for x in subterms(t) if israndt(x)}
        if not rands:
            z = jitter_zero(facts, j, v1)
            return ctx.check(rule, where, z, lambda: f"the configured jitter is not applied; {wit(facts)}")
        if len(rands) > 1:
            raise Undecided("several random numbers")
        R = rands.pop()
        ks = set()
        for t in [r] + [a.a[0] for a in facts if a.op in ("sgn", "tdfits", "fits")]:
            c, dd = lparts(t)
            if R in dd and (dd.get(v0) or not contains(v1, lambda x: x is v0)):
                ks.add((dd[R], dd.get(v0, 1)))
        ks = {k * s for k, s in ks}
        if len(ks) != 1:
            raise Undecided(f"how the random number enters the delay: {sorted(ks)}")
        kk = ks.pop()
        bound(ctx, rule, where, facts, box, R, abs(kk), j, v1)
        v2 = clamp(facts, ladd(v1, R, kk), lmul(R, kk))
    # minimum, last
    if r is mn:
        ok = le(facts, box, v2, mn)
        ctx.check(rule, where, ok, lambda: f"the minimum is returned although the delay {short(v2)} may be larger; {wit(facts)}")
        return
    if r is not v2 and not same(facts, r, v2):
        if le(facts, box, mn, r) is not True:
            return ctx.bad(rule, where, f"the delay {short(r)} can be below the configured minimum; {wit(facts)}")
        if is_opaque(r):
            raise Undecided(short(r))
        return ctx.bad(rule, where, f"the delay is {short(r)}, where value, offset and jitter give {short(v2)}")
    ctx.check(rule, where, le(facts, box, mn, r), lambda: f"the delay {short(r)} can be below the configured minimum; {wit(facts)}")


def israndt(x):
    return x.op == "app" and x.a[0] == "rand"


def clamp(facts, v, inc):
    """v, saturated where the path says it does not fit"""
    if v.op == "int":
        return INT(max(-TDMAX, min(TDMAX, v.a[0])))
    s = facts.get(mk("tdfits", v))
    if s == frozenset((0,)):
        c, d = lparts(inc)
        neg = sign_of(facts, inc)
        if neg is None:
            raise Undecided(f"direction of the overflow of {short(v)}")
        return INT(-TDMAX if neg else TDMAX)
    return v


def sign_of(facts, t):
    s = facts.get(mksgn(t)) if mksgn(t).op == "sgn" else None
    if isinstance(s, frozenset):
        if s == frozenset((-1,)):
            return True
        if -1 not in s:
            return False
    if implied(facts, numcmp("Lt", t, INT(0))):
        return True
    if implied(facts, numcmp("Ge", t, INT(0))):
        return False
    return None


def jitter_zero(facts, j, v1):
    for a, s in facts.items():
        if a.op == "sgn" and s == frozenset((0,)) and contains(a, lambda x: x is j or (x.op == "dc" and x.a[0] is j)):
            return True
    return False


def bound(ctx, rule, where, facts, box, R, k, j, v1):
    rg = R.a[1][0]
    f = dict(rg.a[2]) if rg.op == "adt" else {}
    if "start" not in f or "end" not in f:
        raise Undecided("shape of the random range")
    d = variant_of(j, facts, B + "Jitter")
    if d is None:
        return ctx.bad(rule, where, "the kind of jitter is not looked at")
    arg = fld(dc(j, d), "0")
    ends = tuple(rewrite(e, lambda x: x.a[1] if x.op == "sat" else None) for e in (f["start"], f["end"]))
    # the amounts the ends are made of
    srcs = set()
    for e in ends:
        srcs |= set(lparts(e)[1])
    if d == "Absolute":
        for e in ends:
            for x in lparts(e)[1]:
                y = unabs(x)
                if y is arg:
                    u = 1
                elif y.op == "app" and y.a[0].startswith("td_num_") and y.a[0][7:] in NS and y.a[1][0] is arg:
                    u = NS[y.a[0][7:]]
                elif contains(y, lambda z: z is arg) or is_opaque(y):
                    raise Undecided(f"amount of jitter {short(y)}")
                else:
                    return ctx.bad(rule, where, f"the jitter is bounded by {short(y)}, not by the configured amount")
                c, dd = lparts(e)
                if c and abs(c) * k > 10**9:
                    return ctx.bad(rule, where, "the jitter has a constant part")
                ctx.check(rule, where, abs(dd[x]) * k <= u, lambda: f"the jitter reaches {abs(dd[x]) * k} ns for every {u} ns configured")
        if not srcs:
            ctx.ok(rule, where)
        return
    # relative: |value * ratio|, the value before jitter
    for e in ends:
        for x in lparts(e)[1]:
            y = unabs(x)
            ok = False
            fm = [z for z in subterms(y) if z.op == "app" and z.a[0] == "fmul"]
            if len(fm) != 1:
                raise Undecided(f"amount of jitter {short(y)}")
            a, b = fm[0].a[1]
            if contains(a, lambda z: z is arg):
                a, b = b, a
            if strip_cast(b) is not arg:
                return ctx.bad(rule, where, f"the jitter is {short(y)}, not the configured ratio")
            q = strip_cast(a)
            if q.op == "int":
                u, q = 10**6, q
                ok = v1.op == "int" and abs(q.a[0]) * u <= abs(v1.a[0]) + 10**9
            elif q.op == "app" and q.a[0].startswith("td_num_") and q.a[0][7:] in NS:
                u = NS[q.a[0][7:]]
                ok = q.a[1][0] is v1
            else:
                raise Undecided(f"amount of jitter {short(y)}")
            ctx.check(rule, where, ok, lambda: f"the jitter is relative to {short(q)}, not to the delay {short(v1)}")
            ctx.check(rule, where, abs(lparts(e)[1][x]) * k <= u, lambda: f"the jitter exceeds the ratio: factor {abs(lparts(e)[1][x]) * k}/{u}")


def unabs(x):
    while x.op == "app" and x.a[0] in ("int_saturating_abs", "abs", "int_unsigned_abs", "int_abs", "td_abs") or x.op == "ncast" and x.a[0] in INTBITS and x.a[1] in INTBITS:
        x = x.a[1][0] if x.op == "app" else x.a[-1]
    return x


# ---- configuration ----------------------------------------------------------------------------------


def config(ctx, rule="backoff-config"):
    X = SYM("x")
    bs = B + "BackoffStrategy"
    ctx.attempt(rule, "constructors", lambda: constructors(ctx, rule, bs, X))
    for name, path, want in (("with_jitter", ("jitter",), OPT(X)), ("with_min", ("min",), X), ("with_offset", ("additional_offset",), OPT(X))):
        ctx.attempt(rule, name, lambda: setter(ctx, rule, name, ctx.method(bs, name), path, want, X))
    for k, f in sorted(ctx.F.raw.items()):
        if f.get("name") == "with_max" and base(f.get("self") or "") == bs and "<[" not in k:
            ctx.attempt(rule, "with_max", lambda: setter(ctx, rule, k.rsplit("::", 3)[-2].strip("<>") + "::with_max" if False else f"with_max of {f['self'].split('::')[-1].rstrip('>')}", k, ("strategy", "max"), OPT(X), X))


def setter(ctx, rule, name, k, path, want, X):
    if k is None:
        return
    for p in ctx.run(k, [SELF, X], await_=False):
        if p.kind != "ret":
            ctx.bad(rule, name, f"ends with {p.kind}")
            continue
        ds = diff(SELF, p.val)
        ok = len(ds) == 1 and tuple(ds[0][0]) == path and ds[0][2] is want
        ctx.check(rule, name, ok, lambda: "it changes " + (", ".join(".".join(map(str, d[0])) + " to " + short(d[2], 60) for d in ds) or "nothing"))


def constructors(ctx, rule, bs, X):
    Y = SYM("y")
    for name, strat, fields in (("constant", "Constant", {"delay": X}), ("linear", "Linear", {"factor": X, "max": OPT()}),
                                ("exponential", "Exponential", {"base": X, "max": OPT()}),
                                ("polynomial", "Polynomial", {"factor": X, "power": Y, "max": OPT()})):
        k = ctx.method(bs, name)
        if k is None:
            continue
        for p in ctx.run(k, [X, Y] if name == "polynomial" else [X], await_=False):
            ok = p.kind == "ret" and p.val.op == "adt"
            if not ok:
                ctx.check(rule, name, False if p.kind != "ret" else None, f"ends with {p.kind}")
                continue
            f = dict(p.val.a[2])
            for n, w in (("jitter", OPT()), ("additional_offset", OPT()), ("min", INT(0))):
                ctx.check(rule, name, f.get(n) is w, lambda: f"{n} starts as {short(f.get(n))}")
            s = f.get("strategy")
            for n, w in fields.items():
                g = fld(s, n)
                ctx.check(rule, name, g is w, lambda: f"{n} is {short(g)}")


def default(ctx, rule="backoff-total"):
    ctx.attempt(rule, "default Executor::backoff", lambda: _default(ctx, rule))


def _default(ctx, rule):
    where = "default Executor::backoff"
    k = ctx.method("rexecutor::executor::Executor", "backoff")
    if k is None:
        return
    J = SYM("job")
    for p in ctx.run(k, [J], await_=False):
        att = fld(J, "attempt")
        box = Box(p.facts, None, {att: "u16"})
        if not box.feasible():
            continue
        panics(ctx, rule, where, p, box)
        if p.kind == "ret":
            lo, hi = box.rng(p.val)
            ctx.check(rule, where, True if lo >= 0 or implied(p.facts, numcmp("Ge", p.val, INT(0))) else None, lambda: f"the delay {short(p.val)} can be negative")
