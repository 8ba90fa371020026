"""Abstract semantics of the library functions the repository builds on (std, tokio, chrono, futures...).

Every entry is the documented contract of the function, expressed on provenance terms: what it returns,
which effect (event) it has, on which conditions it branches.  Unmodelled functions are opaque.
"""
import re

from .terms import *
from .facts import norm
from . import formula
from .interp import Out, St, Bail, evlist, TRACING, INTBITS, int_range

POLL = "std::task::Poll"
NS = {"nanoseconds": 1, "microseconds": 10**3, "milliseconds": 10**6, "seconds": 10**9, "minutes": 60 * 10**9,
      "hours": 3600 * 10**9, "days": 86400 * 10**9, "weeks": 7 * 86400 * 10**9}
DUR = {"from_nanos": 1, "from_micros": 10**3, "from_millis": 10**6, "from_secs": 10**9, "from_mins": 60 * 10**9,
       "from_hours": 3600 * 10**9}
TDMAX = (2**63 - 1) * 10**6  # chrono TimeDelta bounds, ns
CTX = mk("ctx")


def ret(st, v):
    return [Out(st, "ret", v)]


def ready(v):
    return ADT(POLL, "Ready", (("0", v),))


def val(I, st, v):
    n = 0
    while v.op == "mref" and n < 20:
        v = I.rd(st, v.a[0], v.a[1])
        n += 1
    return v


def count(st, k):
    n = st.cnt.get(k, 0)
    st.cnt[k] = n + 1
    return n


def fork_ok(I, st, atom, ok, err):
    out = []
    for s, r in I.branch(st, isin(atom, (1,))):
        s = s.copy()
        out.append(Out(s, "ret", OK(ok) if r else ERR(err)))
    return out


def fork_opt(I, st, atom, v):
    out = []
    for s, r in I.branch(st, isin(atom, (1,))):
        s = s.copy()
        out.append(Out(s, "ret", OPT(v) if r else OPT()))
    return out


def panic(st, what, site):
    return [Out(st, "panic", None, mk("panic", what, site))]


def sname(I, site):
    return I.site(site[0], site[2])


def opaque(I, st, name, args, dflt=True):
    rargs = tuple(I.resolve(st, a) for a in args)
    return mk("res", name, count(st, ("res", name)), rargs)


# =================================================================================================
# collections and iterators
#   it(src, mode, stages, cur)        lazily evaluated iterator over the collection src
#   comp(src, cases, order, shape)    collected iterator: { val | elem(src,bv) : conj }, ordered
# =================================================================================================

EMPTY = mk("arr", ())


def is_coll(v):
    return v.op in ("arr", "comp")


def mk_iter(I, st, v, mut=False):
    """iterator over the collection value/reference v"""
    if v.op == "mref":
        src = I.rd(st, v.a[0], v.a[1])
        if src.op == "it":
            return v
        if src.op == "mref":
            return mk_iter(I, st, src, mut)
        if mut:
            if src.op == "arr":
                return mk("it", mk("arr", tuple(mk("mref", v.a[0], v.a[1] + (("ix", INT(i)),)) for i in range(len(src.a[0])))), "v", (), "start")
            if src.op == "comp":
                return mk("it", src, "v", (), "start")
            return mk("it", src, "m", (), "start")
        v = src
    if v.op == "it":
        return v
    if v.op == "adt" and v.a[0] == "std::option::Option":
        items = tuple(x for _, x in v.a[2])
        return mk("it", mk("arr", items), "v", (), "start")
    if v.op == "adt" and v.a[0].startswith("std::ops::Range"):
        return v
    return mk("it", v, "v", (), "start")


CUTS = ("take", "skip", "step_by", "take_while", "skip_while", "map_while", "shape")


def settle(I, st, it, site):
    """an iterator that cuts (take/skip/...) before a further filter: the cut applies to what was there
    before, so make that a collection of its own"""
    if it.op != "it" or it.a[0].op == "arr" or it.a[3] != "start":
        return it
    if not any(x.a[0] in CUTS for x in it.a[2]):
        return it
    try:
        bv, cases, src = cases_of(I, st, it, site)
    except Impure:
        return it
    return mk("it", comp_of(src, cases, it.a[2], bv), "v", (), "start")


def comp_of(src, cases, stages, bv):
    order = src.a[2] if src.op == "comp" else mk("ord", "iter")
    r = root_src(src)
    shape = (src.a[3] if src.op == "comp" and r is not src else ()) + shape_of(stages)
    return mk("comp", r, cases, order, shape, bv)


def stage(I, st, it, s, site=None):
    if it.op == "mref":
        it = val(I, st, it)
    if site is not None and s.a[0] in ("filter", "filter_map", "take_while", "skip_while", "map_while"):
        it = settle(I, st, it, site)
    return mk("it", it.a[0], it.a[1], it.a[2] + (s,), it.a[3])


def purest(st0, s, ev0):
    return s.ev is ev0


class Impure(Exception):
    pass


def elem_value(I, st, src, mode, tag):
    if mode == "m":
        return mk("mref", mk("E", src, tag), ())
    return I.rd(st, mk("E", src, tag), ())


def base_elems(I, st, src, mode, tag):
    """[(state, value)] for the element `tag` of src, with membership facts for comprehensions"""
    if src.op == "comp":
        return inst_cases(I, st, src.a[1], src.a[4], tag)
    return [(st, elem_value(I, st, src, mode, tag))]


def inst_cases(I, st, cases, bv, tag):
    """[(state, value)] for element `tag` known to be in the comprehension"""
    by = {}
    for conj, v in cases:
        by.setdefault(v, []).append(conj)
    out = []
    for v, dnf in by.items():
        if len(dnf) > 1:
            d2 = [norm_conj((subst(a, {bv: tag}), x) for a, x in c) for c in dnf]
            d2 = formula.canon(formula.expand([c for c in d2 if c is not None]))
        else:
            d2 = [norm_conj((subst(a, {bv: tag}), x) for a, x in dnf[0])]
            d2 = formula.canon(formula.expand([c for c in d2 if c is not None]))
        if not d2:
            continue
        if len(d2) > 1:
            s = I.add_fact(st, mk("sat", d2), frozenset((1,)))
        else:
            s = st
            for a, rs in sorted(next(iter(d2)), key=lambda x: x[0].uid):
                s = I.add_fact(s, a, rs)
                if s is None:
                    break
        if s is not None:
            out.append((s, subst(v, {bv: tag})))
    return out


def run_stages(I, st, stages, v, site):
    """-> [(st, 'yield'|'skip'|'stop'|kind, val/info)]"""
    cur = [(st, "yield", v)]
    for s in stages:
        nxt = []
        for q, k, x in cur:
            if k != "yield":
                nxt.append((q, k, x))
                continue
            nm = s.a[0]
            if nm == "filter":
                for o in I.call_value(q, s.a[1], [x], site):
                    if o.kind != "ret":
                        nxt.append((o.st, o.kind, o.info))
                        continue
                    for q2, r in I.branch(o.st, val(I, o.st, o.val)):
                        nxt.append((q2, "yield" if r else "skip", x))
            elif nm in ("map", "then"):
                for o in I.call_value(q, s.a[1], [x], site):
                    nxt.append((o.st, "yield" if o.kind == "ret" else o.kind, o.val if o.kind == "ret" else o.info))
            elif nm == "foldstep":
                for o in I.call_value(q, s.a[1], [s.a[2], x], site):
                    if o.kind != "ret":
                        nxt.append((o.st, o.kind, o.info))
                        continue
                    for q2, t in I.branch(o.st, val(I, o.st, o.val)):
                        nxt.append((q2, "yield", INT(1 if t else 0)))
            elif nm == "tryeach":
                # closure whose value decides whether the iteration goes on
                path, go = s.a[2], s.a[3]
                for o in I.call_value(q, s.a[1], [x], site):
                    if o.kind != "ret":
                        nxt.append((o.st, o.kind, o.info))
                        continue
                    r = val(I, o.st, o.val)
                    b = r if path == "bool" else isin(mkdisc(r, path), (go,))
                    for q2, t in I.branch(o.st, b):
                        if path == "bool" and go == "false":
                            t = not t
                        nxt.append((q2, "yield" if t else "stop", r))
            elif nm == "inspect":
                for o in I.call_value(q, s.a[1], [x], site):
                    nxt.append((o.st, "yield" if o.kind == "ret" else o.kind, x if o.kind == "ret" else o.info))
            elif nm in ("filter_map", "map_while"):
                for o in I.call_value(q, s.a[1], [x], site):
                    if o.kind != "ret":
                        nxt.append((o.st, o.kind, o.info))
                        continue
                    r = val(I, o.st, o.val)
                    for q2, some in I.branch(o.st, isin(mkdisc(r, "std::option::Option"), ("Some",))):
                        nxt.append((q2, "yield" if some else ("skip" if nm == "filter_map" else "stop"), fld(dc(r, "Some"), "0") if some else None))
            elif nm in ("take_while", "skip_while"):
                for o in I.call_value(q, s.a[1], [x], site):
                    if o.kind != "ret":
                        nxt.append((o.st, o.kind, o.info))
                        continue
                    for q2, r in I.branch(o.st, val(I, o.st, o.val)):
                        if nm == "skip_while":
                            r = not r
                        nxt.append((q2, "yield" if r else ("stop" if nm == "take_while" else "skip"), x))
            elif nm == "enumerate":
                ix = mk("app", "index", (x,))
                if s is stages[0]:
                    el = x.a[0] if x.op == "mref" and x.a[0].op == "E" and not x.a[1] else x if x.op == "elem" else None
                    if el is not None:
                        ix = mk("ixof", el.a[0], el.a[1])
                nxt.append((q, "yield", mk("tup", (ix, x))))
            elif nm == "own":
                nxt.append((q, "yield", I.resolve(q, x)))
            elif nm in ("take", "skip", "rev", "step_by", "shape"):
                nxt.append((q, "yield", x))
            else:
                raise Bail("stage " + nm)
        cur = nxt
    return cur


SHAPES = ("take", "skip", "rev", "step_by", "take_while", "skip_while", "map_while", "shape")


def shape_of(stages):
    return tuple(mk("shape", *s.a) if s.a[0] in ("take", "skip", "step_by") else mk("shape", s.a[0]) for s in stages if s.a[0] in SHAPES)


def facts_delta(st0, s):
    out = []
    for a, x in s.facts.items():
        if st0.facts.get(a) != x:
            out.append((a, x))
    return frozenset(out)


def mem_changed(st0, s):
    for r, v in s.mem.items():
        if r.op in ("L",) and r not in st0.mem:
            continue
        if r.op == "H":
            continue
        if st0.mem.get(r) is not v:
            if r not in st0.mem and r.op in ("E", "D", "S"):
                return True
            if r in st0.mem:
                o = st0.mem[r]
                if v.op == "moved":
                    continue
                if o is not v:
                    return True
    return False


def bvar(I):
    return mk("bv", I.bdepth)


def cases_of(I, st, it, site, extra=None):
    """analyse one generic element -> (bv, [(conj, value)], src)   raises Impure"""
    src = it.a[0]
    bv = bvar(I)
    I.bdepth += 1
    try:
        out = {}
        s0 = st.copy()
        for q, v in base_elems(I, s0, src, it.a[1], bv):
            for q2, k, x in run_stages(I, q, it.a[2] + ((extra,) if extra is not None else ()), v, site):
                if k in ("skip", "stop"):
                    if q2.ev is not s0.ev and not only_benign(q2.ev, s0.ev) or mem_changed(s0, q2):
                        raise Impure()
                    continue
                if k != "yield":
                    if k == "panic":
                        raise Impure()
                    continue
                if q2.ev is not s0.ev and not only_benign(q2.ev, s0.ev) or mem_changed(s0, q2):
                    raise Impure()
                x2 = I.resolve(q2, x) if x.op != "mref" or x.a[0].op != "E" else x
                out.setdefault(x2, []).append(pdelta(I, s0, q2, x2))
    finally:
        I.bdepth -= 1
    cases = []
    for v, dnf in out.items():
        c = formula.canon(dnf)
        for conj in c:
            cases.append((conj, v))
    cases.sort(key=lambda x: (x[1].uid, sorted((a.uid, str(sorted(map(str, s)) if isinstance(s, frozenset) else s)) for a, s in x[0])))
    return bv, tuple(cases), src


BENIGN = ("maypanic", "inext", "iterend", "pick")


def project(I, facts, picks, v=None):
    """facts of a side-effect free evaluation: what is known of an element found on the way becomes
    'there is such an element'.  picks: the pick events of the evaluation, in order"""
    facts = list(facts)
    for e in reversed(picks):
        src, tag = e.a[2], e.a[3]
        if v is not None and tag in subterms(v):
            raise Impure()
        mine = [(a, r) for a, r in facts if tag in subterms(a)]
        if not mine:
            continue
        facts = [(a, r) for a, r in facts if tag not in subterms(a)]
        bv = mk("bv", I.bdepth)
        c = norm_conj((subst(a, {tag: bv}), r) for a, r in mine)
        if c is None:
            continue
        b = any_atom(I, src, bv, [c])
        if b.op == "in":
            facts.append((b.a[0], frozenset((1,))))
    return frozenset(facts)


def pdelta(I, s0, s, v=None):
    return project(I, facts_delta(s0, s), [e for e in evlist(s.ev, s0.ev) if e.a[0] == "pick"], v)


def only_benign(ev, upto):
    return all(e.a[0] in BENIGN for e in evlist(ev, upto))


def keep_elem(I, st, x):
    """the value, but a reference to an element of a collection stays one"""
    return x if x.op == "mref" and x.a[0].op == "E" and not x.a[1] else I.resolve(st, x)


def extended(o, x):
    """the sequence o followed by the sequence x"""
    if x.op == "arr":
        if o.op == "arr":
            return mk("arr", o.a[0] + x.a[0])
        for y in x.a[0]:
            o = mk("push", o, y)
        return o
    return mk("ext", o, x)


def root_src(src):
    return src.a[0] if src.op == "comp" and not [x for x in src.a[3] if x.a[0] != "rev"] else src


def any_atom(I, src, bv, dnf):
    c = formula.canon(formula.expand(dnf))
    if not c:
        return FALSE
    if src.op == "arr" and not src.a[0]:
        return FALSE
    return isin(mk("any", root_src(src), bv, c), (1,))


def exists(I, st, it, site, extra=None):
    """boolean term: some element passes the stages (and extra)"""
    bv, cases, src = cases_of(I, st, it, site, extra)
    return any_atom(I, src, bv, [c for c, _ in cases])


def iter_loop(I, st, it, site, extra, final=None):
    """impure internal iteration: record as a loop over the elements, havoc what it writes"""
    src = it.a[0]
    tag = mk("nx", "each", sname(I, site), count(st, ("each", sname(I, site))), "cur")
    st = st.copy()
    # fixpoint over the memory the closures write
    W = {}
    lid = "iter " + sname(I, site)
    for rnd in range(6):
        s0 = st.copy()
        for (r, p), w in W.items():
            I.wr(s0, r, p, w)
        s0.ev = None
        res = []
        for q, v in base_elems(I, s0, src, it.a[1], tag):
            res += run_stages(I, q, it.a[2] + (extra if isinstance(extra, tuple) else ((extra,) if extra is not None else ())), v, site)
        ch = False
        for q, k, x in res:
            if k in ("panic", "div"):
                continue
            for r in list(s0.mem):
                if r in q.mem and q.mem[r] is not s0.mem[r] and r.op != "H" and q.mem[r].op != "moved":
                    from .interp import diff
                    for p, a, c in diff(s0.mem[r], q.mem[r]):
                        w = mk("lv", lid, r, p)
                        if W.get((r, p)) is not w and c is not w:
                            W[(r, p)] = w
                            ch = True
        if not ch:
            break
    subs = []
    for q, k, x in res:
        upd = []
        for (r, p), w in W.items():
            nv = I.rd(q, r, p)
            if nv is not w:
                upd.append((w, nv))
        ew = tuple(sorted(((r, v) for r, v in q.mem.items() if r.op == "E" and s0.mem.get(r) is not v), key=lambda z: z[0].uid))
        subs.append(mk("sub", k, facts_delta(s0, q), tuple(evlist(q.ev)), I.resolve(q, x) if isinstance(x, T) else UNIT, tuple(sorted(upd, key=lambda z: (z[0].uid, z[1].uid))), ew))
    inits = tuple(sorted(((w, I.rd(st, r, p)) for (r, p), w in W.items()), key=lambda z: z[0].uid))
    for (r, p), w in W.items():
        v = None
        init = I.rd(st, r, p)
        if init.op == "qb":
            from .sqlx import rep_value
            bv = mk("bv", I.bdepth)
            good = [s for s in subs if s.a[0] not in ("panic", "div")]
            ups = [(norm_conj((subst(a, {tag: bv}), x) for a, x in s.a[1]), dict(s.a[4]).get(w, w)) for s in good]
            if all(s.a[0] in ("next", "yield") for s in good) and all(c is not None for c, _ in ups):
                v = rep_value(w, init, ups, src, bv, tag, it.a[2])
        I.wr(st, r, p, v if v is not None else w)
    st.emit("each", src, tag, tuple(sorted(set(subs), key=lambda t: t.uid)), inits, shape_of(it.a[2]))
    outs = []
    pan = [(q, x) for q, k, x in res if k == "panic"]
    for q, x in pan[:1]:
        s = st.copy()
        outs.append(Out(s, "panic", None, x))
    return st, tag, outs


def collect(I, st, it, site):
    """-> (value, state, extra outs)"""
    if it.a[0].op == "arr":
        return None
    try:
        bv, cases, src = cases_of(I, st, it, site)
        return comp_of(src, cases, it.a[2], bv), st, []
    except Impure:
        s, tag, outs = iter_loop(I, st, it, site, None)
        v = mk("res", "collect", count(s, ("res", "collect")), (root_src(it.a[0]),))
        return v, s, outs


def pick(I, st, it, site, how, extra=None, less=None):
    """Option of one element passing the stages.  how: 'first' (iteration order), 'min', 'any' """
    src = it.a[0]
    sn = sname(I, site)
    outs = []
    try:
        bv, cases, _ = cases_of(I, st, it, site, extra)
    except Impure:
        st, tag, po = iter_loop(I, st, it, site, extra)
        s2 = st.copy()
        v = mk("res", "pick", count(st, ("res", "pick")), (root_src(src),))
        return po + [Out(st, "ret", OPT(v)), Out(s2, "ret", OPT())]
    dnf = [c for c, _ in cases]
    ex = any_atom(I, src, bv, dnf)
    if it.a[3] == "mid" and how == "first":
        ex = isin(mk("more", sn, st.epoch, root_src(src)), (1,))
    for s, r in I.branch(st, ex):
        s = s.copy()
        if not r:
            outs.append(Out(s, "ret", OPT()))
            continue
        tag = mk("nx", how, sn, count(s, ("nx", sn)), "cur")
        order = src.a[2] if src.op == "comp" else mk("ord", "iter")
        shape = (src.a[3] if src.op == "comp" and root_src(src) is not src else ()) + shape_of(it.a[2])
        s.emit("pick", how, root_src(src), tag, tuple(formula_term(dnf)), order if less is None else less, shape, bv)
        for q, v in inst_cases(I, s, cases, bv, tag):
            outs.append(Out(q.copy(), "ret", OPT(v)))
    return outs


def formula_term(dnf):
    return [mk("conj", c) for c in sorted(formula.canon(dnf), key=lambda c: sorted((a.uid, str(s)) for a, s in c))]


def less_of(I, st, mkout, site):
    """canonical order: mkout(st, a, b) -> [Out with Ordering value] ; returns ord term"""
    a, b = mk("bv", "a"), mk("bv", "b")
    s0 = st.copy()
    lt, eq = [], []
    for o in mkout(s0, a, b):
        if o.kind != "ret":
            return None
        d = facts_delta(s0, o.st)
        v = val(I, o.st, o.val)
        for s, r in I.branch(o.st, isin(mkdisc(v, "std::cmp::Ordering"), ordset(v, "Less"))):
            if r:
                lt.append(facts_delta(s0, s))
            else:
                for s2, r2 in I.branch(s, isin(mkdisc(v, "std::cmp::Ordering"), ordset(v, "Equal"))):
                    if r2:
                        eq.append(facts_delta(s0, s2))
    return mk("ord", "cmp", formula.canon(lt), formula.canon(eq))


def ordset(v, name):
    if v.op in ("sgn", "neg", "int"):
        return ({"Less": -1, "Equal": 0, "Greater": 1}[name],)
    return (name,)


def sort_model(I, st, ref, mkcmp, site, desc=False):
    src = val(I, st, ref)
    if src.op == "comp":
        s0 = src
        cases = src.a[1]
        bv = src.a[4]

        def elem(s, which):
            # generic element a / b of the comprehension (use the first case's value; all cases alike in practice)
            if len({v for _, v in cases}) != 1:
                return None
            return subst(cases[0][1], {bv: which})
        if not cases or elem(st, bv) is None:
            o = None
        else:
            o = less_of(I, st, lambda s, a, b: mkcmp(s, elem(s, a), elem(s, b)), site)
        if o is None:
            o = mk("ord", "unknown", sname(I, site))
        st = st.copy()
        I.wr(st, ref.a[0], ref.a[1], mk("comp", src.a[0], src.a[1], o, src.a[3], bv))
        return ret(st, UNIT)
    if src.op == "arr" and len(src.a[0]) <= 1:
        return ret(st.copy(), UNIT)
    o = less_of(I, st, lambda s, a, b: mkcmp(s, mk("mref", mk("E", src, a), ()), mk("mref", mk("E", src, b), ())), site)
    st = st.copy()
    bv = bvar(I)
    new = mk("comp", src, ((frozenset(), mk("elem", src, bv)),), o or mk("ord", "unknown", sname(I, site)), (), bv)
    I.wr(st, ref.a[0], ref.a[1], new)
    return ret(st, UNIT)


def cmp_values(I, st, a, b, ty, site, key=None):
    """Ord::cmp -> outs with Ordering value"""
    a, b = val(I, st, a), val(I, st, b)
    ty = strip_ref(ty)
    if ty.startswith("("):
        parts = split_tuple(ty)
        cur = [(st, None)]
        for i, p in enumerate(parts):
            nxt = []
            for s, r in cur:
                if r is not None:
                    nxt.append((s, r))
                    continue
                for o in cmp_values(I, s, fld(a, str(i)), fld(b, str(i)), p, site):
                    for s2, eq in I.branch(o.st, isin(mkdisc(o.val, "std::cmp::Ordering"), ordset(o.val, "Equal"))):
                        nxt.append((s2, None if eq else o.val))
            cur = nxt
        return [Out(s.copy(), "ret", INT(0) if r is None else r) for s, r in cur]
    if ty.startswith("std::cmp::Reverse"):
        inner = ty[ty.index("<") + 1:-1]
        return cmp_values(I, st, fld(b, "0"), fld(a, "0"), inner, site)
    if is_num_ty(ty) or numeric(a) or numeric(b):
        return ret(st.copy(), mksgn(lsub(a, b)))
    if ty.startswith("std::option::Option"):
        inner = ty[ty.index("<") + 1:-1]
        out = []
        for s, sa in I.branch(st, isin(mkdisc(a, "std::option::Option"), ("Some",))):
            for s2, sb in I.branch(s, isin(mkdisc(b, "std::option::Option"), ("Some",))):
                if sa and sb:
                    out += cmp_values(I, s2, fld(dc(a, "Some"), "0"), fld(dc(b, "Some"), "0"), inner, site)
                else:
                    out.append(Out(s2.copy(), "ret", INT((sa > sb) - (sa < sb))))
        return out
    return ret(st.copy(), mk("sgn", mk("lin", 0, ((mk("app", "ordval", (a,)), 1), (mk("app", "ordval", (b,)), -1)))) if a is not b else INT(0))


def numeric(v):
    return v.op in ("lin",) or v.op == "app" and v.a[0] == "now"


def strip_ref(ty):
    ty = ty.strip()
    while ty.startswith("&"):
        ty = ty[1:].strip()
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1] if " " in ty else ty
        if ty.startswith("mut "):
            ty = ty[4:]
    return ty


def split_tuple(ty):
    inner = ty[1:-1]
    out, d, cur = [], 0, ""
    for ch in inner:
        if ch in "(<[":
            d += 1
        elif ch in ")>]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def index_read(I, st, v, ix):
    if st is not None:
        v = val(I, st, v)
    if v.op == "arr" and ix.op == "int" and 0 <= ix.a[0] < len(v.a[0]):
        return v.a[0][ix.a[0]]
    if v.op == "setix" and v.a[1] is ix:
        return v.a[2]
    if ix.op == "ixof" and st is not None:
        return I.rd(st, mk("E", v, ix.a[1]), ())
    return mk("elem", v, ix)


def const_adt(I, path, variant, names, fs):
    if path == "chrono::TimeDelta" or path.endswith("::TimeDelta"):
        d = dict(zip(names, fs))
        if all(x.op == "int" for x in fs) and "secs" in d:
            return INT(d["secs"].a[0] * 10**9 + d["nanos"].a[0])
    if path == "std::time::Duration":
        d = dict(zip(names, fs))
        if "secs" in d and d["secs"].op == "int":
            nn = d["nanos"]
            if nn.op == "adt":
                nn = nn.a[2][0][1]
            if nn.op == "int":
                return INT(d["secs"].a[0] * 10**9 + nn.a[0])
    return None


def rec_update(I, st, old, b, rargs):
    if old.op in ("qb", "lv") and any(x is old for x in rargs):
        own = old.a[0] if old.op == "qb" else (mk("frag", "base", old),)
        return mk("qb", own + (mk("frag", "rec", b.npath, tuple(x for x in rargs if x is not old)),))
    return mk("recupd", b.npath, old, rargs)


QUIET = ("maypanic", "inext", "iterend", "pick")


def loop_exit(I, st_in, s, lid, trans, inits, tail):
    """leave a loop: s.ev is the history before the loop, `tail` the events of the last (partial) iteration.
    A loop driven by an iterator that is fresh at the start of the loop is described by its elements:
    - exhausted: every element took one of the back transitions (fact), collections built by pushing are
      comprehensions, flags are `any`, counters are `count`; effects become an `each` event
    - left early: the current element is the first one that does not take a back transition (`pick`)
    anything else stays an opaque `loop` event"""
    drv = [e for e in tail if e.a[0] in ("iterend", "inext") and any(
        v.op == "it" and v.a[3] == "start" and v.a[:3] == e.a[2].a[:3] for v in st_in.mem.values())]
    pure = all(e.a[0] in QUIET for t in trans for e in t.a[2]) and not any(t.a[5] for t in trans)
    writes = any(t.a[4] for t in trans)
    if not drv or any(t.a[5] for t in trans):
        s.emit("loop", lid, trans, inits)
        for e in tail:
            s.ev = mk("ev", s.ev, e)
        return
    e0 = drv[0]
    kind, src, it, tag = e0.a
    tail = [e for e in tail if e is not e0]
    lvs = {w for w, _ in inits}
    n0 = I.bdepth
    bv = mk("bv", n0)
    cut = any(x.a[0] in CUTS for x in it.a[2])
    conjs = []
    for t in trans:
        I.bdepth += 1
        fs = project(I, t.a[1], [e for e in t.a[2] if e.a[0] == "pick"])
        I.bdepth -= 1
        conjs.append(norm_conj((subst(a, {tag: bv}), r) for a, r in fs))
    Y = [frozenset()]
    if it.a[2] or src.op == "comp":
        try:
            _, cases, _ = cases_of(I, st_in, it, SITES[tag])
            Y = [c for c, _ in cases]
        except Impure:
            Y = None
    rest = None
    if Y is not None and not cut and None not in conjs and not any(w in subterms(mk("set", c)) for c in conjs for w in lvs):
        n = formula.neg(conjs) if conjs else [frozenset()]
        if n is not None:
            rest = formula.conj_and(Y, n)
    if kind == "iterend":
        if rest:
            b = any_atom(I, src, bv, rest)
            if b.op == "in":
                s.facts[b.a[0]] = frozenset((0,))
        m = {}
        if pure and not writes and Y is not None and not cut and None not in conjs and not rest:
            alts = best_of(I, st_in, s, trans, inits, conjs, Y, src, it, tag, bv, lvs, tail)
            if alts is not None:
                return alts
        for w, init in inits:
            if w.op == "lv" and pure:
                v = accumulated(I, w, init, trans, conjs, src, it, tag, bv, lvs, cut)
                if v is not None:
                    m[w] = v
        if m:
            subst_state(s, m)
            tail = [subst(e, m) for e in tail]
        if not pure or writes:
            subs = tuple(sorted({mk("sub", "next", frozenset(t.a[1]), tuple(x for x in t.a[2] if x.a[0] not in ("inext", "iterend")), UNIT, t.a[3], t.a[4]) for t in trans}, key=lambda t: t.uid))
            s.emit("each", src, tag, subs, inits, shape_of(it.a[2]))
        elif lvs - set(m) - {w for w in lvs if w.op == "it"}:
            s.emit("loop", lid, trans, inits)
    else:
        if not pure or writes:
            s.emit("loop", lid, trans, inits)
        if rest is not None:
            order = src.a[2] if src.op == "comp" else mk("ord", "iter")
            shape = (src.a[3] if src.op == "comp" and root_src(src) is not src else ()) + shape_of(it.a[2])
            s.emit("pick", "first", root_src(src), tag, tuple(formula_term(rest)), order, shape, bv)
        elif pure and not writes:
            s.emit("loop", lid, trans, inits)
    for e in tail:
        s.ev = mk("ev", s.ev, e)


SITES = {}


def best_of(I, st_in, s, trans, inits, conjs, Y, src, it, tag, bv, lvs, tail):
    """a loop that keeps the best element seen so far: `best` starts as None, becomes Some(element) on the first
    element that passes, and is replaced when the current element is better.  -> the two states after it, or None"""
    ws = [(w, i) for w, i in inits if w.op == "lv"]
    if len(ws) != 1 or ws[0][1] is not OPT():
        return None
    w = ws[0][0]
    held = fld(dc(w, "Some"), "0")
    a, b, c = mk("bv", "a"), mk("bv", "b"), mk("bv", "c")
    ds = mkdisc(w, "std::option::Option")
    first, repl, kept = [], [], []
    kind = None
    rs = root_src(src)
    if rs is not src:
        return None
    for t, cj in zip(trans, conjs):
        u = [nv for x, nv in t.a[3] if x is w]
        nv = u[0] if u else w
        d = {"Some", "None"}
        cc = []
        for at, r in cj:
            if at is ds:
                d = set(r)
            else:
                cc.append((at, r))
        if nv is OPT(held):
            nv = w
        if nv is not w:
            if not (nv.op == "adt" and nv.a[1] == "Some"):
                return None
            x = nv.a[2][0][1]
            if kind not in (None, x):
                return None
            kind = x
        if "None" in d:
            if any(w in subterms(at) for at, _ in cc):
                return None
            if nv is not w:
                first.append(frozenset(cc))
        if "Some" in d:
            (kept if nv is w else repl).append(cc)
    if kind is None:
        return None
    el = mk("elem", src, tag)
    if kind.op == "ixof" and kind.a[0] is src and kind.a[1] is tag:
        m = {mk("elem", src, held): mk("elem", src, b)}
    elif kind is el or kind.op == "mref" and kind.a[0] is mk("E", src, tag) and not kind.a[1]:
        m = {held: mk("elem", src, b)}
    else:
        return None
    F = formula.canon(formula.conj_and(first, Y))
    R = set()
    RS = []
    for cc in repl:
        cc = norm_conj((subst(at, m), r) for at, r in cc)
        if cc is None:
            continue
        if any(w in subterms(at) for at, _ in cc):
            return None
        RS.append(cc)
        R.add(frozenset((at, r) for at, r in cc if b in subterms(at)))
    R = list(R)
    RS = formula.conj_and(RS, Y)
    if not RS and not R:
        o = mk("ord", "iter")
    else:
        if formula.equiv(RS, formula.conj_and(list(F), R))[0] is not True:
            return None

        tmp = mk("bv", "t")

        def rel2(x, y):
            # simultaneous: bv -> x, b -> y
            out = []
            for k in R:
                q = norm_conj((subst(subst(subst(at, {b: tmp}), {bv: x}), {tmp: y}), r) for at, r in k)
                if q is not None:
                    out.append(q)
            return formula.canon(formula.expand(out))
        nab, nba = formula.neg(rel2(a, b)), formula.neg(rel2(b, a))
        if nab is None or nba is None:
            return None
        lt = formula.canon(formula.conj_and(list(rel2(a, b)), nba))
        eq = formula.canon(formula.conj_and(nab, nba) + formula.conj_and(list(rel2(a, b)), list(rel2(b, a))))

        def inst(f, x, y):
            out = []
            for k in f:
                q = norm_conj((subst(subst(subst(at, {b: tmp}), {a: x}), {tmp: y}), r) for at, r in k)
                if q is not None:
                    out.append(q)
            return formula.canon(formula.expand(out))
        ok = True
        for f in (lt, eq):
            if f:
                ok = ok and formula.implies(formula.conj_and(list(f), list(inst(f, b, c))), list(inst(f, a, c)))[0]
        o = mk("ord", "cmp", lt, eq) if ok is True else mk("ord", "unknown", "loop")
    ex = any_atom(I, src, bv, list(F))
    out = []
    for q, r in I.branch(s, ex):
        q = q.copy()
        if not r:
            subst_state(q, {w: OPT()})
            out.append(q)
            t2 = [subst(e, {w: OPT()}) for e in tail]
            for e in t2:
                q.ev = mk("ev", q.ev, e)
            continue
        sn = tag.a[1]
        tg = mk("nx", "min", sn, count(q, ("nx", sn)), "cur")
        q.emit("pick", "min" if o.a[0] != "iter" else "first", rs, tg, tuple(formula_term(list(F))), o, shape_of(it.a[2]), bv)
        mm = {mk("elem", src, held): mk("elem", src, tg), w: OPT(subst(kind, {tag: tg}))}
        for q2, _ in inst_cases(I, q, [(k, UNIT) for k in F], bv, tg):
            q2 = q2.copy()
            subst_state(q2, mm)
            for e in tail:
                q2.ev = mk("ev", q2.ev, subst(e, mm))
            out.append(q2)
    return out


def subst_state(s, m):
    for r in list(s.mem):
        s.mem[r] = subst(s.mem[r], m)
    for at in list(s.facts):
        a2 = subst(at, m)
        if a2 is not at:
            f = s.facts.pop(at)
            p = norm_pair(a2, f)
            if isinstance(p, tuple):
                s.facts[p[0]] = p[1]


def accumulated(I, w, init, trans, conjs, src, it, tag, bv, lvs, cut):
    """the value of the accumulator w after a pass over all elements, or None"""
    ups = []
    for t, c in zip(trans, conjs):
        u = [nv for x, nv in t.a[3] if x is w]
        if c is None:
            continue
        if u:
            ups.append((c, u[0]))
    if any(x in subterms(mk("set", c)) for c in conjs if c is not None for x in lvs):
        return None
    if not ups:
        return init

    inner = {e.a[3] for t in trans for e in t.a[2] if e.a[0] == "pick"}

    def clean(x):
        return not any(y in lvs or y in inner for y in subterms(x))
    if init.op == "qb":
        from .sqlx import rep_value
        return rep_value(w, init, [(c, dict(t.a[3]).get(w, w)) for t, c in zip(trans, conjs) if c is not None], src, bv, tag, it.a[2])
    if all(v.op == "push" and v.a[0] is w and clean(v.a[1]) for _, v in ups):
        cases = []
        by = {}
        for c, v in ups:
            by.setdefault(subst(v.a[1], {tag: bv}), []).append(c)
        for x, dnf in by.items():
            for c in formula.canon(dnf):
                cases.append((c, x))
        cases.sort(key=lambda x: (x[1].uid, sorted((a.uid, str(sorted(map(str, s)) if isinstance(s, frozenset) else s)) for a, s in x[0])))
        comp = comp_of(src, tuple(cases), it.a[2], bv)
        if init.op == "arr" and not init.a[0]:
            return comp
        return mk("ext", init, comp)
    if cut:
        return None
    if all(v.op == "int" for _, v in ups) and len({v for _, v in ups}) == 1 and init.op == "int" and init.a[0] in (0, 1) and ups[0][1].a[0] in (0, 1):
        if ups[0][1] is init:
            return init
        b = any_atom(I, src, bv, [c for c, _ in ups])
        return b if init.a[0] == 0 else NOT(b)
    if all(v is ladd(w, INT(1)) for _, v in ups) and init.op == "int" and init.a[0] == 0:
        return count_term(src, bv, [c for c, _ in ups])
    return None


def count_term(src, bv, conds):
    """number of elements counted; all of them: the length"""
    if any(not c for c in conds):
        return mk("app", "len", (root_src(src),))
    return mk("app", "count", (root_src(src), mk("dnf", bv, formula.canon(formula.expand(conds)))))


# =================================================================================================
# drops
# =================================================================================================


def fmt_single(f):
    """format!("{x}") is x.to_string()"""
    if f.op == "app" and f.a[0] == "fmt" and len(f.a[1]) == 2:
        t, args = f.a[1]
        if t.op == "arr" and [x.a[0] for x in t.a[0] if x.op == "int"] == [192, 0] and args.op == "arr" and len(args.a[0]) == 1:
            d = args.a[0][0]
            if d.op == "app" and d.a[0] == "new_display":
                return d.a[1][0]
    return None


def fmt_text(f):
    """the text of format!(…) when every argument is a known string"""
    if not (f.op == "app" and f.a[0] == "fmt" and len(f.a[1]) == 2 and f.a[1][0].op == "arr" and f.a[1][1].op == "arr"):
        return None
    bs = [x.a[0] for x in f.a[1][0].a[0] if x.op == "int"]
    args = list(f.a[1][1].a[0])
    if len(bs) != len(f.a[1][0].a[0]) or any(not (d.op == "app" and d.a[0] == "new_display" and d.a[1][0].op == "str") for d in args):
        return None
    out, i, k = b"", 0, 0
    while i < len(bs):
        b = bs[i]
        if b == 0:
            return STR(out.decode()) if i == len(bs) - 1 else None
        if b < 128:
            out += bytes(bs[i + 1:i + 1 + b])
            i += 1 + b
        elif b == 192:
            if k >= len(args):
                return None
            out += args[k].a[1][0].a[0].encode()
            k += 1
            i += 1
        else:
            return None
    return None


def drop_value(I, st, v, depth=0):
    if depth > 8:
        return
    o = v.op
    if o == "guard":
        release(I, st, v)
    elif o in ("adt",):
        for _, x in v.a[2]:
            drop_value(I, st, x, depth + 1)
    elif o in ("tup", "arr"):
        for x in v.a[0]:
            drop_value(I, st, x, depth + 1)
    elif o == "ov":
        drop_value(I, st, v.a[0], depth + 1)
        for _, x in v.a[1]:
            drop_value(I, st, x, depth + 1)
    elif o in ("clo", "cor"):
        for x in v.a[1]:
            drop_value(I, st, x, depth + 1)
    elif o == "txn":
        st.emit("txn_drop", v)
    elif o == "cancelguard":
        st.emit("cancel", v.a[0])
    elif o == "jh":
        st.emit("detach", v.a[1])
    elif o == "permit":
        st.emit("permit_drop", v)


def release(I, st, g):
    lock, mode, n = g.a
    root = mk("D", lock, n)
    dat = mk("data", lock, n)
    cur = st.mem.get(root, dat)
    ew = []
    for r in list(st.mem):
        if r.op == "E" and dat in subterms(r.a[0]):
            v = st.mem[r]
            d = mk("elem", r.a[0], r.a[1])
            if v is not d:
                ew.append((r, I.resolve(st, v)))
            del st.mem[r]
    st.mem.pop(root, None)
    st.emit("rel", lock, mode, n, I.resolve(st, cur), tuple(sorted(ew, key=lambda x: x[0].uid)))


# =================================================================================================
# futures
# =================================================================================================


def child(I, st, runner):
    """run something concurrently: its own event list; -> tuple of sub terms"""
    s0 = st.copy()
    s0.ev = None
    subs = []
    for o in runner(s0):
        v = I.resolve(o.st, o.val) if o.kind == "ret" else (o.info if isinstance(o.info, T) else mk("info", str(o.info)))
        subs.append(mk("sub", o.kind, facts_delta(s0, o.st), tuple(evlist(o.st.ev)), v, (), ()))
    return tuple(sorted(set(subs), key=lambda t: t.uid))


def with_sub(I, st, sub):
    s = st
    for a, r in sorted(sub.a[1], key=lambda x: x[0].uid):
        s = I.add_fact(s, a, r)
        if s is None:
            return None
    return s.copy()


def tick(st):
    st.epoch += 1


def run_future(I, st, f, site):
    """await f -> [Out]"""
    st = st.copy()
    v = f
    n = 0
    while v.op == "mref" and n < 20:
        nv = I.rd(st, v.a[0], v.a[1])
        if nv.op not in ("mref",):
            if nv.op in ("cor", "fut"):
                I.wr(st, v.a[0], v.a[1], mk("polled", nv))
            v = nv
            break
        v = nv
        n += 1
    o = v.op
    if o == "polled":
        v = v.a[0]
        o = v.op
    if o == "cor":
        b = I.F.body(v.a[0])
        if b is None:
            s = st.copy()
            r = opaque(I, s, "cor " + v.a[0][:60], v.a[1])
            s.emit("await", "unknown", (v,), r)
            tick(s)
            return ret(s, r)
        return I.run_fn(st, v.a[0], [v, CTX])
    if o == "adt" and v.a[0].startswith("std::future::Ready"):
        return ret(st, v.a[2][0][1])
    if o == "ready":
        return ret(st, v.a[0])
    if o == "pending":
        return [Out(st, "div", None, "pending")]
    if o == "pollfn":
        cl = v.a[0]
        futs = tuple(x for x in select_futs(I, st, cl))
        st.emit("select", futs)
        outs = []
        for oo in I.call_value(st, cl, [CTX], site):
            if oo.kind != "ret":
                outs.append(oo)
                continue
            p = val(I, oo.st, oo.val)
            if p.op == "adt" and p.a[1] == "Ready":
                oo.st.emit("selected")
                outs.append(Out(oo.st, "ret", p.a[2][0][1]))
            elif p.op != "adt":
                outs.append(Out(oo.st, "ret", fld(dc(p, "Ready"), "0")))
        return outs
    if o == "timeoutf":
        d, inner = v.a
        di = I.resolve(st, inner) if inner.op == "mref" else inner
        outs = []
        if di.op == "fut" and di.a[0] == "cancelled":
            # waiting for a signal at most so long is a select between the signal and a sleep
            nap = mk("fut", "sleep", (I.resolve(st, d),))
            st.emit("select", (di, nap))
            s2 = st.copy()
            for q, f, wrap in ((st, inner, OK), (s2, nap, lambda _: ERR(mk("elapsed", d)))):
                for oo in run_future(I, q, f, site):
                    if oo.kind == "ret":
                        oo.st.emit("selected")
                        outs.append(Out(oo.st, "ret", wrap(oo.val)))
                    else:
                        outs.append(oo)
            return outs
        st.emit("timeout", d, di)
        s2 = st.copy()
        for oo in run_future(I, st, inner, site):
            if oo.kind == "ret":
                oo.st.emit("timeout_end", d)
                outs.append(Out(oo.st, "ret", OK(oo.val)))
            else:
                outs.append(oo)
        s2.emit("elapsed", d)
        tick(s2)
        outs.append(Out(s2, "ret", ERR(mk("elapsed", d))))
        return outs
    if o == "jh":
        kind, sid, subs = v.a
        outs = []
        for sub in subs:
            if sub.a[0] != "ret":
                continue
            s = with_sub(I, st, sub)
            if s is None:
                continue
            tick(s)
            s.emit("joined", sid, OK(sub.a[3]), INT(s.epoch))
            outs.append(Out(s, "ret", sub.a[3] if kind == "thread?" else OK(sub.a[3])))
        s = st.copy()
        tick(s)
        s.emit("joined", sid, ERR(mk("joinerr", sid)), INT(s.epoch))
        outs.append(Out(s, "ret", ERR(mk("joinerr", sid))))
        return outs
    if o == "fec":
        return stream_loop(I, st, v, site)
    if o == "scollect":
        return stream_collect(I, st, v, site)
    if o == "joinall":
        return join_all(I, st, v, site)
    if o == "snext":
        ref, = v.a
        return stream_next(I, st, ref, site)
    if o == "fmap":
        outs = []
        for oo in run_future(I, st, v.a[0], site):
            if oo.kind == "ret":
                outs += I.call_value(oo.st, v.a[1], [oo.val], site)
            else:
                outs.append(oo)
        return outs
    if o == "catch":
        outs = []
        for oo in run_future(I, st, v.a[0], site):
            if oo.kind == "ret":
                outs.append(Out(oo.st, "ret", OK(oo.val)))
            elif oo.kind == "panic":
                outs.append(Out(oo.st, "ret", ERR(mk("panicval", oo.info))))
            else:
                outs.append(oo)
        if not any(x.val is not None and x.val.op == "adt" and x.val.a[1] == "Err" for x in outs):
            s = st.copy()
            s.emit("caught")
            tick(s)
            outs.append(Out(s, "ret", ERR(mk("panicval", v.a[0]))))
        return outs
    if o == "fut":
        name, args = v.a
        h = FUTS.get(name)
        if h is not None:
            return h(I, st, v, site)
        rargs = tuple(I.resolve(st, a) for a in args)
        r = mk("res", name, count(st, ("res", name)), rargs)
        st.emit("await", name, rargs, r)
        tick(st)
        return ret(st, r)
    s = st
    rv = I.resolve(s, v)
    r = mk("res", "await", count(s, ("res", "await")), (rv,))
    s.emit("await", "opaque", (rv,), r)
    tick(s)
    return ret(s, r)


def select_futs(I, st, clo):
    out = []
    for c in clo.a[1] if clo.op == "clo" else ():
        v = c
        if v.op == "mref":
            v = I.rd(st, v.a[0], v.a[1])
        if v.op == "tup":
            for x in v.a[0]:
                out.append(I.resolve(st, x))
        elif v.op in ("fut", "cor", "timeoutf", "jh", "fec"):
            out.append(I.resolve(st, v))
    return out


def f_lock(mode):
    def h(I, st, v, site):
        st.emit("await", v.a[0], v.a[1], UNIT)
        tick(st)
        return [Out(st, "ret", acquire(I, st, v.a[1][0], mode, sname(I, site)))]
    return h


def acquire(I, st, lock, mode, sn):
    n = count(st, ("lock", lock))
    st.emit("acq", lock, mode, n, sn)
    return mk("guard", lock, mode, n)


FUTS = {"tokio::RwLock::read": f_lock("r"), "tokio::RwLock::write": f_lock("w"), "tokio::Mutex::lock": f_lock("w")}


def sem_acquire(I, st, v, site):
    st.emit("await", v.a[0], v.a[1], UNIT)
    tick(st)
    s2 = st.copy()
    p = mk("permit", v.a[1][0], count(st, "permit"))
    st.emit("permit", p)
    return [Out(st, "ret", OK(p)), Out(s2, "ret", ERR(mk("semclosed")))]


FUTS["tokio::Semaphore::acquire"] = sem_acquire


# ---- streams ---------------------------------------------------------------------------------------


def stream_of(I, st, v):
    v = val(I, st, v)
    if v.op == "strm":
        return v
    return mk("strm", v, ())


def stream_item(I, st, sv, tag, site):
    """outcomes of producing one item: [(st, kind, value)]"""
    src, stages = sv.a
    if src.op == "it":
        bases = []
        if src.a[0].op == "arr":
            bases = [(st, x) for x in src.a[0].a[0]]
        else:
            bases = base_elems(I, st, src.a[0], src.a[1], tag)
        cur = []
        for q, x in bases:
            cur += run_stages(I, q, src.a[2], x, site)
    elif src.op == "futs":
        it = src.a[0]
        bases = [(st, x) for x in it.a[0].a[0]] if it.a[0].op == "arr" else base_elems(I, st, it.a[0], it.a[1], tag)
        cur = []
        for q, x in bases:
            for q2, k, y in run_stages(I, q, it.a[2], x, site):
                if k != "yield":
                    cur.append((q2, k, y))
                    continue
                for o in run_future(I, q2, y, site):
                    cur.append((o.st, "yield" if o.kind == "ret" else o.kind, o.val if o.kind == "ret" else o.info))
    else:
        item = mk("item", src, tag)
        st = st.copy()
        st.emit("item", src, tag)
        tick(st)
        cur = [(st, "yield", item)]
    for s in stages:
        nm = s.a[0]
        nxt = []
        for q, k, x in cur:
            if k != "yield":
                nxt.append((q, k, x))
                continue
            if nm in ("take_until", "fuse", "boxed", "chunks"):
                nxt.append((q, k, x))
            elif nm in ("map", "inspect"):
                for o in I.call_value(q, s.a[1], [x], site):
                    nxt.append((o.st, "yield" if o.kind == "ret" else o.kind, (o.val if nm == "map" else x) if o.kind == "ret" else o.info))
            elif nm in ("then", "filter_map", "filter"):
                for o in I.call_value(q, s.a[1], [x], site):
                    if o.kind != "ret":
                        nxt.append((o.st, o.kind, o.info))
                        continue
                    for o2 in run_future(I, o.st, o.val, site):
                        if o2.kind != "ret":
                            nxt.append((o2.st, o2.kind, o2.info))
                        elif nm == "then":
                            nxt.append((o2.st, "yield", o2.val))
                        elif nm == "filter_map":
                            for q2, some in I.branch(o2.st, isin(mkdisc(o2.val, "std::option::Option"), ("Some",))):
                                nxt.append((q2, "yield" if some else "skip", fld(dc(o2.val, "Some"), "0") if some else None))
                        else:
                            for q2, r in I.branch(o2.st, o2.val):
                                nxt.append((q2, "yield" if r else "skip", x))
            elif nm in ("buffer_unordered", "buffered"):
                for o2 in run_future(I, q, x, site):
                    nxt.append((o2.st, "yield" if o2.kind == "ret" else o2.kind, o2.val if o2.kind == "ret" else o2.info))
            else:
                nxt.append((q, k, x))
        cur = nxt
    return cur


def stream_desc(I, st, sv):
    src, stages = sv.a
    d = []
    for s in stages:
        nm = s.a[0]
        if nm in ("take_until", "take", "skip", "buffer_unordered", "buffered"):
            d.append(mk("stage", nm, I.resolve(st, s.a[1])))
        else:
            d.append(mk("stage", nm))
    return I.resolve(st, src), tuple(d)


def stream_loop(I, st, v, site):
    strm, limit, clo, kind = v.a
    sv = stream_of(I, st, strm)
    tag = mk("nx", "item", sname(I, site), 0, "cur")

    def runner(s0):
        outs = []
        for q, k, x in stream_item(I, s0, sv, tag, site):
            if k == "skip":
                outs.append(Out(q, "ret", mk("skipped")))
                continue
            if k != "yield":
                outs.append(Out(q, k, None, x))
                continue
            for o in I.call_value(q, clo, [x], site):
                if o.kind != "ret":
                    outs.append(o)
                    continue
                outs += run_future(I, o.st, o.val, site)
        return outs
    subs = child(I, st, runner)
    src, desc = stream_desc(I, st, sv)
    st.emit("sloop", src, desc, I.resolve(st, limit), subs, kind, tag)
    tick(st)
    return ret(st, UNIT)


def stream_collect(I, st, v, site):
    sv = stream_of(I, st, v.a[0])
    tag = mk("nx", "item", sname(I, site), 0, "cur")

    def runner(s0):
        return [Out(q, "ret" if k in ("yield", "skip") else k, x if k == "yield" else mk("skipped"), x) for q, k, x in stream_item(I, s0, sv, tag, site)]
    subs = child(I, st, runner)
    src, desc = stream_desc(I, st, sv)
    st.emit("sloop", src, desc, OPT(), subs, "collect", tag)
    tick(st)
    return ret(st, mk("res", "scollect", count(st, ("res", "scollect")), (src,)))


def stream_next(I, st, ref, site):
    sv = stream_of(I, st, ref)
    src, desc = stream_desc(I, st, sv)
    tag = mk("nx", "snext", sname(I, site), count(st, ("snext", sname(I, site))), "cur")
    outs = []
    s2 = st.copy()
    st.emit("snext", src, desc)
    for q, k, x in stream_item(I, st, sv, tag, site):
        if k == "yield":
            outs.append(Out(q.copy(), "ret", OPT(x)))
        elif k != "skip":
            outs.append(Out(q, k, None, x))
    s2.emit("snext_end", src, desc)
    tick(s2)
    outs.append(Out(s2, "ret", OPT()))
    return outs


def join_all(I, st, v, site):
    it = v.a[0]
    tag = mk("nx", "join", sname(I, site), 0, "cur")

    def runner(s0):
        return [Out(q, "ret" if k == "yield" else k, x, x) for q, k, x in stream_item(I, s0, mk("strm", mk("futs", it), ()), tag, site)]
    subs = child(I, st, runner)
    st.emit("sloop", I.resolve(st, it.a[0]), (), OPT(), subs, "join_all", tag)
    tick(st)
    return ret(st, mk("res", "join_all", count(st, ("res", "join_all")), (I.resolve(st, it.a[0]),)))


def spawn(I, st, kind, runner, site):
    st = st.copy()
    sn = sname(I, site)
    sid = mk("task", kind, sn, count(st, ("spawn", sn)))
    subs = child(I, st, runner)
    st.emit("spawn", kind, sid, subs)
    return ret(st, mk("jh", kind, sid, subs))


# =================================================================================================
# dispatch
# =================================================================================================

IDENT_TRAITS = {
    "std::borrow::ToOwned": ("to_owned",), "std::borrow::Borrow": ("borrow",), "std::convert::AsRef": ("as_ref",),
    "std::borrow::BorrowMut": ("borrow_mut",), "std::convert::AsMut": ("as_mut",),
    "std::future::IntoFuture": ("into_future",),
}
IDENT_FNS = {
    "std::boxed::Box::new", "std::boxed::Box::pin", "std::boxed::Box::leak", "std::boxed::Box::into_pin", "std::sync::Arc::new", "std::rc::Rc::new",
    "std::pin::Pin::new", "std::pin::Pin::new_unchecked", "std::pin::Pin::as_mut", "std::pin::Pin::get_mut", "std::pin::Pin::get_unchecked_mut",
    "std::pin::Pin::as_ref", "std::pin::Pin::set", "std::pin::Pin::into_inner",
    "std::string::String::as_str", "std::string::String::as_mut_str", "std::string::String::into_boxed_str", "std::str::<impl str>::to_owned",
    "core::str::<impl str>::as_ref", "std::boxed::box_assume_init_into_vec_unsafe", "std::vec::Vec::as_slice", "std::vec::Vec::into_boxed_slice",
    "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec", "std::hint::must_use", "std::hint::black_box",
    "std::mem::ManuallyDrop::new", "std::convert::identity", "core::slice::<impl [T]>::as_ref", "std::vec::Vec::as_mut_slice",
    "chrono::DateTime::to_utc", "std::string::String::into_string", "std::option::Option::as_slice", "std::sync::Arc::as_ref",
    "std::sync::Arc::from", "std::boxed::Box::from",
    "futures::StreamExt::boxed", "futures::FutureExt::boxed", "futures::FutureExt::fuse", "futures::StreamExt::boxed_local",
    "std::vec::Vec::leak", "std::string::String::leak", "std::rc::Rc::clone", "std::cell::RefCell::new",
    "std::sync::Arc::ptr_eq_",
}
ITER_OWN = ("cloned", "copied")
MOVE_STAGES = ("map", "filter", "filter_map", "inspect", "take_while", "skip_while", "map_while")


def first_ga(c):
    ga = c.get("rga") or c.get("ga") or [""]
    return ga[0] if ga else ""


def dispatch(I, st, c, n, tr, args, site, dty):
    name = c["name"]
    path = n
    key = c.get("key")
    local_body = key is not None and key in I.F.raw and I.F.raw[key].get("path", "").split("::")[0].lstrip("<") and is_local_key(I, key)
    # ---- tracing / logging: no behaviour
    if path.startswith(TRACING) or c["path"].startswith(TRACING):
        if tr == "tracing::Instrument" or "::Instrument" in (tr or "") or path.startswith("tracing::Instrument"):
            return ret(st.copy(), args[0])
        if name == "poll" and (tr or "").endswith("Future"):
            return poll(I, st, args, site)
        if "Instrumented" in path and name in ("new",):
            return ret(st.copy(), args[0])
        if "WithSubscriber" in path:
            return ret(st.copy(), args[0])
        return ret(st.copy(), TR)
    if site[2]["sp"] and len(site[2]["sp"]) > 2 and any(m.startswith("tracing::") for m in site[2]["sp"][2]):
        if not (name == "poll") and not any(m.endswith("instrument") for m in site[2]["sp"][2]) and not dty.startswith("impl"):
            # argument formatting inside event macros; the evaluated user expressions carry their own span
            if not local_body and tr not in ("std::ops::Deref", "std::clone::Clone"):
                return ret(st.copy(), TR)
    if args and args[0].op == "tr" and not local_body:
        return ret(st.copy(), TR)
    r = std_core(I, st, c, path, tr, name, args, site, dty, local_body)
    if r is not None:
        return r
    if local_body:
        return None
    for h in HANDLERS:
        r = h(I, st, c, path, tr, name, args, site, dty)
        if r is not None:
            return r
    return trait_call(I, st, c, path, tr, name, args, site, dty)


def is_local_key(I, key):
    return bool(I.F.raw[key].get("local"))


def key_of(c):
    return c.get("key")


def derived(I, key):
    b = I.F.body(key)
    return b.derived if b else None


def poll(I, st, args, site):
    outs = []
    for o in run_future(I, st, args[0], site):
        if o.kind == "ret":
            outs.append(Out(o.st, "ret", ready(o.val)))
        else:
            outs.append(o)
    return outs


def trait_call(I, st, c, path, tr, name, args, site, dty):
    if not tr or "res" in c:
        return None
    if not (tr.startswith("rexecutor") or tr.startswith("rexecutor_sqlx")):
        return None
    if "dflt" in c and name not in OPAQUE_DEFAULTS and c["dflt"] in I.F.raw:
        return None
    st = st.copy()
    rargs = tuple(I.resolve(st, a) for a in args)
    short = tr.split("::")[-1] + "::" + name
    if "Future" in dty or "impl std::future" in dty or "{async" in dty:
        return ret(st, mk("fut", short, tuple(args)))
    st.emit("tcall", short, rargs)
    if dty == "bool":
        return ret(st, isin(APP(short, *rargs), (1,)))
    return ret(st, APP(short, *rargs))


OPAQUE_DEFAULTS = ("execute", "backoff", "timeout")


def std_core(I, st, c, path, tr, name, args, site, dty, local_body):
    # ---- comparison, cloning, conversion
    if tr == "std::clone::Clone" and name == "clone":
        if local_body and derived(I, c["key"]) != "Clone":
            return None
        return ret(st.copy(), I.resolve(st, args[0]))
    if name == "clone_from" and tr == "std::clone::Clone":
        st = st.copy()
        I.wr(st, args[0].a[0], args[0].a[1], I.resolve(st, args[1]))
        return ret(st, UNIT)
    if tr in ("std::cmp::PartialEq", "std::cmp::Eq") and name in ("eq", "ne"):
        if local_body and derived(I, c["key"]) != "PartialEq":
            return None
        if c.get("key") in I.F.raw and not local_body:
            ty0 = strip_ref(first_ga(c))
            if ty0.startswith("std::option::Option") or ty0.startswith("std::result::Result"):
                if name == "eq":
                    return None  # inline the std body
        a, b = I.resolve(st, args[0]), I.resolve(st, args[1])
        r = eq_values(first_ga(c), a, b)
        return ret(st.copy(), r if name == "eq" else NOT(r))
    if tr in ("std::cmp::PartialOrd", "std::cmp::Ord"):
        if local_body and not derived(I, c["key"]):
            return None
        ty = first_ga(c)
        if name in ("lt", "le", "gt", "ge"):
            outs = []
            want = {"lt": ("Less",), "le": ("Less", "Equal"), "gt": ("Greater",), "ge": ("Greater", "Equal")}[name]
            for o in cmp_values(I, st, args[0], args[1], ty, site):
                v = o.val
                ss = [x for w in want for x in ordset(v, w)]
                outs.append(Out(o.st, "ret", isin(mkdisc(v, "std::cmp::Ordering"), ss)))
            return outs
        if name == "cmp":
            return cmp_values(I, st, args[0], args[1], ty, site)
        if name == "partial_cmp":
            return [Out(o.st, "ret", OPT(o.val)) for o in cmp_values(I, st, args[0], args[1], ty, site)]
        if name in ("min", "max"):
            outs = []
            for o in cmp_values(I, st, args[0], args[1], ty, site):
                for s, less in I.branch(o.st, isin(mkdisc(o.val, "std::cmp::Ordering"), ordset(o.val, "Less"))):
                    a = (args[0] if less else args[1]) if name == "min" else (args[1] if less else args[0])
                    outs.append(Out(s.copy(), "ret", a))
            return outs
        if name == "clamp":
            outs = []
            for o in cmp_values(I, st, args[0], args[1], ty, site):
                for s, less in I.branch(o.st, isin(o.val, (-1,))):
                    if less:
                        outs.append(Out(s.copy(), "ret", args[1]))
                        continue
                    for o2 in cmp_values(I, s, args[0], args[2], ty, site):
                        for s2, gr in I.branch(o2.st, isin(o2.val, (1,))):
                            outs.append(Out(s2.copy(), "ret", args[2] if gr else args[0]))
            return outs
        return None
    if path in ("std::cmp::min", "std::cmp::max"):
        c2 = dict(c, name=name)
        return std_core(I, st, c2, path, "std::cmp::Ord", name, args, site, dty, False)
    if tr in IDENT_TRAITS and name in IDENT_TRAITS[tr]:
        if local_body:
            return None
        return ret(st.copy(), args[0])
    if tr == "std::ops::Deref" and name == "deref":
        if local_body:
            return None
        v = val(I, st, args[0])
        if v.op == "guard":
            return ret(st.copy(), I.rd(st, mk("D", v.a[0], v.a[2]), ()))
        if "res" not in c and not path.startswith("<"):
            return ret(st.copy(), args[0] if args[0].op != "mref" else v)
        return ret(st.copy(), v)
    if tr == "std::ops::DerefMut" and name == "deref_mut":
        if local_body:
            return None
        v = val(I, st, args[0])
        if v.op == "guard":
            return ret(st.copy(), mk("mref", mk("D", v.a[0], v.a[2]), ()))
        return ret(st.copy(), args[0])
    if tr in ("std::convert::Into", "std::convert::From") and not local_body:
        a = args[0]
        ga = c.get("ga") or ["", ""]
        if c.get("key") in I.F.raw:
            return None
        if name in ("into", "from"):
            if "res" not in c and tr == "std::convert::Into":
                # unresolved generic conversion
                return ret(st.copy(), APP("into", I.resolve(st, a))) if not trivially_same(ga) else ret(st.copy(), a)
            ts = [strip_ref(x) for x in ga]
            if dty in INTBITS or dty in ("f64", "f32", "i128"):
                return ret(st.copy(), val(I, st, a))
            return ret(st.copy(), conv_from(I, st, a, dty))
    if tr in ("std::convert::TryInto", "std::convert::TryFrom") and not local_body and c.get("key") not in I.F.raw:
        m = dty[len("std::result::Result<"):].split(",")[0].strip() if dty.startswith("std::result::Result<") else ""
        a = val(I, st, args[0])
        if m in INTBITS and (strip_ref((c.get("ga") or ["", ""])[-1]) in INTBITS or strip_ref((c.get("ga") or [""])[0]) in INTBITS):
            lo, hi = int_range(m)
            return checked_int(I, st, a, lo, hi, OK, lambda: ERR(mk("intconv")))
        return fork_ok(I, st.copy(), mk("ok", "try_into", m, a), APP("conv", STR(m), a), mk("converr", m, a))
    if path in IDENT_FNS or name in ("as_ref", "as_mut") and path.startswith(("std::boxed", "std::sync::Arc", "std::pin")):
        return ret(st.copy(), args[0])
    # ---- closures
    if tr in ("std::ops::FnOnce", "std::ops::FnMut", "std::ops::Fn") and name in ("call", "call_mut", "call_once"):
        a = val(I, st, args[1]) if len(args) > 1 else UNIT
        al = list(a.a[0]) if a.op == "tup" else [a]
        return I.call_value(st, args[0], al, site, dty)
    # ---- futures
    if name == "poll" and tr and tr.endswith("::Future") and (not local_body or I.F.raw[key_of(c)].get("coroutine")):
        return poll(I, st, args, site)
    if path == "std::future::get_context":
        return ret(st.copy(), CTX)
    if path == "std::future::poll_fn":
        return ret(st.copy(), mk("pollfn", args[0]))
    if path.endswith("box_new_uninit") or path.endswith("Box::new_uninit"):
        return ret(st.copy(), mk("uninit"))
    # ---- mem
    if path in ("std::mem::drop", "core::mem::drop") or path == "std::mem::drop":
        st = st.copy()
        drop_value(I, st, args[0])
        return ret(st, UNIT)
    if path == "std::mem::forget":
        st = st.copy()
        if contains(args[0], lambda x: x.op in ("guard", "txn")):
            st.emit("forget", args[0])
        return ret(st, UNIT)
    if path in ("std::mem::replace", "std::mem::take", "std::mem::swap") and args[0].op == "mref":
        st = st.copy()
        old = I.rd(st, args[0].a[0], args[0].a[1])
        if name == "replace":
            I.wr(st, args[0].a[0], args[0].a[1], args[1])
            return ret(st, old)
        if name == "take":
            d = default_of(first_ga(c), dty)
            I.wr(st, args[0].a[0], args[0].a[1], d)
            return ret(st, old)
        if args[1].op == "mref":
            new = I.rd(st, args[1].a[0], args[1].a[1])
            I.wr(st, args[0].a[0], args[0].a[1], new)
            I.wr(st, args[1].a[0], args[1].a[1], old)
            return ret(st, UNIT)
        return None
    if path.endswith("intrinsics::discriminant_value"):
        v = val(I, st, args[0])
        p = strip_ref(first_ga(c)).split("<")[0]
        return ret(st.copy(), mkdisc(v, p))
    if path == "std::mem::discriminant":
        v = val(I, st, args[0])
        p = strip_ref(first_ga(c)).split("<")[0]
        return ret(st.copy(), mkdisc(v, p))
    if tr == "std::default::Default" and name == "default" and not local_body:
        if c.get("key") in I.F.raw:
            return None
        st = st.copy()
        return ret(st, own_locks(st, default_of(dty, dty)))
    # ---- panics
    if path.startswith(("core::panicking::", "std::rt::panic", "std::panicking::", "core::option::unwrap_failed", "core::option::expect_failed",
                        "core::result::unwrap_failed", "std::option::unwrap_failed", "std::option::expect_failed", "std::result::unwrap_failed",
                        "std::rt::begin_panic", "std::process::abort", "std::process::exit", "core::slice::index::", "std::panic::")) and dty == "!":
        if "unreachable" in name:
            pass
        return panic(st, name, sname(I, site))
    if path.startswith("core::panicking::") or path.startswith("std::rt::begin_panic"):
        return panic(st, name, sname(I, site))
    if path.endswith("intrinsics::unreachable") or name == "unreachable_unchecked":
        return []
    return None


def trivially_same(ga):
    return len(ga) == 2 and ga[0] == ga[1]


def conv_from(I, st, a, dty):
    """external From/Into conversions keep the content (String from &str, Arc from T, Vec from array, Box<dyn Error> from E ...)"""
    return a


def default_of(ty, dty):
    ty = ty.strip()
    if ty in INTBITS:
        return INT(0)
    if ty == "bool":
        return FALSE
    if ty.startswith(("std::vec::Vec", "&[", "[", "std::collections::VecDeque")) or ty.startswith("&") and ty.endswith("]"):
        return EMPTY
    if ty == "std::string::String" or ty == "&str" or ty.startswith("&") and ty.endswith("str"):
        return STR("")
    if ty.startswith("std::option::Option"):
        return OPT()
    if ty == "()":
        return UNIT
    if ty.startswith(("chrono::TimeDelta", "std::time::Duration")):
        return INT(0)
    if ty.startswith("std::sync::Arc<") or ty.startswith("std::boxed::Box<"):
        return default_of(ty[ty.index("<") + 1:-1], "")
    if ty.startswith(("std::sync::RwLock<", "std::sync::Mutex<", "tokio::sync::RwLock<", "tokio::sync::Mutex<")):
        return mk("newlock", default_of(ty[ty.index("<") + 1:-1], ""))
    if ty.startswith("std::collections::Hash") or ty.startswith("std::collections::BTree"):
        return EMPTY
    if ty.startswith("std::sync::atomic"):
        return mk("newatomic", INT(0))
    if re.match(r"[\w:]*Hasher\d*$", ty):
        return mk("hasher", ())
    return APP("default", STR(norm(ty)))


def own_locks(st, v):
    """locks created here are different from locks created elsewhere"""
    if v.op == "newlock" and len(v.a) == 1:
        return mk("newlock", v.a[0], count(st, "newlock"))
    return v


def eq_values(ty, a, b):
    ty = strip_ref(ty)
    if a is b:
        return TRUE
    if has_tr(a) or has_tr(b):
        return TR
    if is_num_ty(ty):
        return numeq(a, b)
    if a.op == "adt" and b.op == "adt" and len(a.a[2]) > 1:
        if a.a[1] != b.a[1]:
            return FALSE
        da, db = dict(a.a[2]), dict(b.a[2])
        acc = TRUE
        for k in da:
            e = eq_values("", da[k], db.get(k, UNIT))
            acc = e if acc is TRUE else (acc if e is TRUE else mk("and", acc, e))
        return acc
    if ty.startswith("std::option::Option<") and ty.endswith(">"):
        inner = ty[len("std::option::Option<"):-1]
        O = "std::option::Option"

        def both(x, y):
            return x if y is TRUE else y if x is TRUE else FALSE if FALSE in (x, y) else mk("and", x, y)
        sa, sb = isin(mkdisc(a, O), ("Some",)), isin(mkdisc(b, O), ("Some",))
        na, nb = isin(mkdisc(a, O), ("None",)), isin(mkdisc(b, O), ("None",))
        some_ = both(sa, sb)
        if some_ is not FALSE:
            some_ = both(some_, eq_values(inner, fld(dc(a, "Some"), "0"), fld(dc(b, "Some"), "0")))
        none_ = both(na, nb)
        return some_ if none_ is FALSE else none_ if some_ is FALSE else mk("or", some_, none_)
    if ty.startswith("(") and ty != "()":
        acc = TRUE
        for i, p in enumerate(split_tuple(ty)):
            e = eq_values(p, fld(a, str(i)), fld(b, str(i)))
            acc = e if acc is TRUE else (acc if e is TRUE else mk("and", acc, e))
        return acc
    if a.op == "lin" or b.op == "lin":
        return numeq(a, b)
    return mkeq(a, b)


def checked_int(I, st, v, lo, hi, some, none):
    """fork on lo <= v <= hi"""
    if v.op == "int":
        return ret(st.copy(), some(v) if lo <= v.a[0] <= hi else none())
    out = []
    for s, inr in I.branch(st, isin(mk("fits", v, lo, hi), (1,))):
        out.append(Out(s.copy(), "ret", some(v) if inr else none()))
    return out


# ---- numbers and time --------------------------------------------------------------------------------


def is_time(t):
    t = strip_ref(t)
    return t.startswith(("chrono::DateTime", "chrono::TimeDelta", "std::time::Duration", "tokio::time::Instant", "std::time::Instant", "chrono::Duration"))


def maypanic(st, what, v, sn):
    st.emit("maypanic", what, v, sn)


def h_num(I, st, c, path, tr, name, args, site, dty):
    sn = sname(I, site)
    if path == "chrono::Utc::now" or path in ("std::time::SystemTime::now", "std::time::Instant::now", "tokio::time::Instant::now", "chrono::Local::now"):
        return ret(st.copy(), mk("app", "now", (INT(st.epoch),)))
    if tr and tr.startswith("std::ops::") and name in ("add", "sub", "mul", "div", "neg", "add_assign", "sub_assign", "mul_assign", "not", "rem"):
        ga = [strip_ref(x) for x in (c.get("ga") or [""])]
        if any(is_time(x) for x in ga[:2]) or all(x in INTBITS for x in ga[:2]):
            st = st.copy()
            a = val(I, st, args[0])
            b = val(I, st, args[1]) if len(args) > 1 else None
            if name in ("add", "add_assign"):
                v = ladd(a, b)
            elif name in ("sub", "sub_assign"):
                v = lsub(a, b)
            elif name in ("mul", "mul_assign"):
                v = lmul(a, b.a[0]) if b.op == "int" else (lmul(b, a.a[0]) if a.op == "int" else APP("Mul", *sorted((a, b), key=lambda t: t.uid)))
            elif name == "neg":
                v = lmul(a, -1)
            else:
                v = APP(name, a, b)
            if v.op != "int" or abs(v.a[0]) > TDMAX or name == "div":
                maypanic(st, "time " + name, v, sn)
            if name.endswith("_assign"):
                I.wr(st, args[0].a[0], args[0].a[1], v)
                return ret(st, UNIT)
            return ret(st, v)
        if ga and ga[0] in ("f64", "f32"):
            return ret(st.copy(), APP("f" + name, *[val(I, st, a) for a in args]))
    if path.startswith("chrono::TimeDelta::") or path.startswith("chrono::Duration::"):
        a = [val(I, st, x) for x in args]
        if name == "zero":
            return ret(st.copy(), INT(0))
        if name == "new":
            pass
        if name in NS or (name.startswith("try_") and name[4:] in NS):
            k = NS[name.replace("try_", "")]
            v = lmul(a[0], k)
            if name.startswith("try_"):
                if v.op == "int":
                    return ret(st.copy(), OPT(v) if abs(v.a[0]) <= TDMAX else OPT())
                return fork_opt(I, st.copy(), mk("tdfits", v), v)
            st = st.copy()
            if k > 10**6:
                if v.op == "int":
                    if abs(v.a[0]) > TDMAX:
                        return panic(st, "TimeDelta::" + name + " out of bounds", sn)
                else:
                    maypanic(st, "TimeDelta::" + name, v, sn)
            return ret(st, v)
        if name == "abs":
            outs = []
            for s, neg in I.branch(st, numcmp("Lt", a[0], INT(0))):
                outs.append(Out(s.copy(), "ret", lmul(a[0], -1) if neg else a[0]))
            return outs
        if name == "is_zero":
            return ret(st.copy(), numeq(a[0], INT(0)))
        if name.startswith("num_"):
            u = name[4:]
            if a[0].op == "int" and u in NS:
                x = a[0].a[0]
                return ret(st.copy(), INT(abs(x) // NS[u] * (1 if x >= 0 else -1)))
            return ret(st.copy(), APP("td_" + name, a[0]))
        if name == "to_std":
            outs = []
            for s, neg in I.branch(st, numcmp("Lt", a[0], INT(0))):
                outs.append(Out(s.copy(), "ret", ERR(mk("outofrange")) if neg else OK(a[0])))
            return outs
        if name == "from_std":
            if a[0].op == "int":
                return ret(st.copy(), OK(a[0]) if a[0].a[0] <= TDMAX else ERR(mk("outofrange")))
            return fork_ok(I, st.copy(), mk("tdfits", a[0]), a[0], mk("outofrange"))
        if name in ("checked_add", "checked_sub", "checked_mul"):
            v = {"checked_add": lambda: ladd(a[0], a[1]), "checked_sub": lambda: lsub(a[0], a[1]),
                 "checked_mul": lambda: lmul(a[0], a[1].a[0]) if a[1].op == "int" else (lmul(a[1], a[0].a[0]) if a[0].op == "int" else APP("Mul", *sorted((a[0], a[1]), key=lambda t: t.uid)))}[name]()
            if v.op == "int":
                return ret(st.copy(), OPT(v) if abs(v.a[0]) <= TDMAX else OPT())
            return fork_opt(I, st.copy(), mk("tdfits", v), v)
        return ret(st.copy(), APP("td_" + name, *a))
    if path.startswith("chrono::DateTime::"):
        a = [val(I, st, x) for x in args]
        if name in ("checked_add_signed", "checked_sub_signed"):
            v = ladd(a[0], a[1]) if "add" in name else lsub(a[0], a[1])
            return fork_opt(I, st.copy(), mk("dtfits", v), v)
        if name == "signed_duration_since":
            return ret(st.copy(), lsub(a[0], a[1]))
        if name in ("with_timezone", "to_utc", "fixed_offset"):
            return ret(st.copy(), a[0])
        if name in ("timestamp", "timestamp_millis", "timestamp_micros"):
            return ret(st.copy(), APP("dt_" + name, a[0]))
        return ret(st.copy(), APP("dt_" + name, *a))
    if path.startswith("std::time::Duration::"):
        a = [val(I, st, x) for x in args]
        if name in DUR:
            return ret(st.copy(), lmul(a[0], DUR[name]))
        if name == "is_zero":
            return ret(st.copy(), numeq(a[0], INT(0)))
        if name in ("saturating_sub", "saturating_add", "checked_add", "checked_sub"):
            v = ladd(a[0], a[1]) if "add" in name else lsub(a[0], a[1])
            if name == "saturating_sub":
                outs = []
                for s, neg in I.branch(st, numcmp("Lt", v, INT(0))):
                    outs.append(Out(s.copy(), "ret", INT(0) if neg else v))
                return outs
            if name == "checked_sub":
                outs = []
                for s, neg in I.branch(st, numcmp("Lt", v, INT(0))):
                    outs.append(Out(s.copy(), "ret", OPT() if neg else OPT(v)))
                return outs
            if name == "saturating_add":
                return ret(st.copy(), v)
            return fork_opt(I, st.copy(), mk("durfits", v), v)
        return ret(st.copy(), APP("dur_" + name, *a))
    if path.startswith("core::num::<impl ") or path.startswith("std::num::<impl ") or path.startswith("core::num::"):
        ty = path.split("<impl ")[1].split(">")[0] if "<impl " in path else ""
        a = [val(I, st, x) for x in args]
        if ty in INTBITS:
            lo, hi = int_range(ty)
            base = name.split("_", 1)
            op = {"add": "Add", "sub": "Sub", "mul": "Mul", "neg": "Neg", "pow": "pow"}.get(base[1] if len(base) > 1 else base[0])

            def ex(op):
                if op == "Add":
                    return ladd(a[0], a[1])
                if op == "Sub":
                    return lsub(a[0], a[1])
                if op == "Neg":
                    return lmul(a[0], -1)
                if op == "Mul":
                    return lmul(a[0], a[1].a[0]) if a[1].op == "int" else (lmul(a[1], a[0].a[0]) if a[0].op == "int" else APP("Mul", *sorted((a[0], a[1]), key=lambda t: t.uid)))
                if a[0].op == "int" and a[1].op == "int":
                    return INT(a[0].a[0] ** min(a[1].a[0], 4096))
                return APP("pow", *a)
            if name == "pow":
                st = st.copy()
                v = ex("pow")
                if v.op != "int" or not lo <= v.a[0] <= hi:
                    maypanic(st, "pow overflow " + ty, v, sn)
                return ret(st, v)
            if op and name.startswith("checked_"):
                v = ex(op)
                return checked_int(I, st, v, lo, hi, OPT, OPT)
            if op and name.startswith("saturating_"):
                v = ex(op)
                if v.op == "int":
                    return ret(st.copy(), INT(max(lo, min(hi, v.a[0]))))
                return ret(st.copy(), mk("sat", ty, v))
            if name in ("abs",):
                st = st.copy()
                maypanic(st, "abs " + ty, a[0], sn)
                return ret(st, APP("abs", a[0]))
        return ret(st.copy(), APP("int_" + name, *a))
    if path.startswith(("std::f64::<impl", "core::f64::<impl", "std::f32::<impl", "core::num::f64", "std::num::f64")):
        return ret(st.copy(), APP("f_" + name, *[val(I, st, x) for x in args]))
    if path.startswith("rand::") or "rand::" in path.split(" as ")[0]:
        if name in ("rng", "thread_rng"):
            return ret(st.copy(), mk("rng"))
        if name in ("random_range", "gen_range", "sample"):
            a = [I.resolve(st, x) for x in args[1:]]
            st = st.copy()
            v = mk("app", "rand", tuple(a) + (INT(count(st, "rand")),))
            maypanic(st, "random_range", a[0], sn)
            return ret(st, v)
        st = st.copy()
        return ret(st, mk("app", "rand", tuple(I.resolve(st, x) for x in args[1:]) + (INT(count(st, "rand")),)))
    return None


# ---- strings, formatting, hashing, serde ---------------------------------------------------------------


def h_misc(I, st, c, path, tr, name, args, site, dty):
    sn = sname(I, site)
    if tr in ("serde::de::Error", "serde::ser::Error") and name == "custom":
        return ret(st.copy(), APP("encerr_custom", I.resolve(st, args[0])))
    if tr == "std::string::ToString" and name == "to_string":
        a = I.resolve(st, args[0])
        ty = strip_ref(first_ga(c))
        if ty in ("str", "std::string::String") or ty.startswith("std::borrow::Cow"):
            return ret(st.copy(), a)
        return ret(st.copy(), APP("to_string", a))
    if path.startswith(("std::string::String::", "std::str::<impl str>::", "core::str::<impl str>::")):
        if name in ("new",):
            return ret(st.copy(), STR(""))
        if name in ("from", "into_boxed_str", "as_str", "as_bytes", "into_bytes", "to_owned", "as_mut_str", "borrow"):
            return ret(st.copy(), val(I, st, args[0]))
        if name == "is_empty":
            return ret(st.copy(), mkeq(I.resolve(st, args[0]), STR("")))
        if name in ("push_str", "push") and args[0].op == "mref":
            st = st.copy()
            I.wr(st, args[0].a[0], args[0].a[1], mk("app", "concat", (I.resolve(st, args[0]), I.resolve(st, args[1]))))
            return ret(st, UNIT)
        if dty == "bool":
            return ret(st.copy(), isin(APP("str_" + name, *[I.resolve(st, a) for a in args]), (1,)))
        return ret(st.copy(), APP("str_" + name, *[I.resolve(st, a) for a in args]))
    if path == "std::str::<impl std::borrow::ToOwned for str>::to_owned" or path.startswith("std::borrow::Cow"):
        return ret(st.copy(), val(I, st, args[0]))
    if path.startswith(("std::fmt::", "core::fmt::", "alloc::fmt::")):
        a = [I.resolve(st, x) for x in args]
        if name in ("from_str", "from_str_nonconst", "new_const"):
            return ret(st.copy(), mk("app", "fmt", tuple(a)))
        if name.startswith("new_") and "Argument" in path:
            return ret(st.copy(), mk("app", name, tuple(a)))
        if name == "new" and "Arguments" in path:
            return ret(st.copy(), mk("app", "fmt", tuple(a)))
        if name == "format":
            if a[0].op == "app" and a[0].a[0] == "fmt" and len(a[0].a[1]) == 1 and a[0].a[1][0].op == "str":
                return ret(st.copy(), a[0].a[1][0])
            one = fmt_single(a[0])
            if one is not None:
                return ret(st.copy(), one if one.op == "str" else APP("to_string", one))
            txt = fmt_text(a[0])
            return ret(st.copy(), txt if txt is not None else mk("app", "format", tuple(a)))
        st = st.copy()
        r = mk("res", "fmt::" + name, count(st, "fmt"), tuple(a))
        st.emit("fmt", name, tuple(a))
        return ret(st, r)
    if path.startswith("fxhash::hash"):
        return ret(st.copy(), mk("app", name if name.startswith("hash") else "hash64", (I.resolve(st, args[0]),)))
    if path.endswith("FxHasher64 as std::default::Default>::default") or "Hasher" in path and name in ("new", "default"):
        return ret(st.copy(), mk("hasher", ()))
    if tr == "std::hash::Hash" and name == "hash" and args[-1].op == "mref":
        h = val(I, st, args[1])
        if h.op == "hasher":
            st = st.copy()
            I.wr(st, args[1].a[0], args[1].a[1], mk("hasher", h.a[0] + (I.resolve(st, args[0]),)))
            return ret(st, UNIT)
    if tr == "std::hash::Hasher":
        h = val(I, st, args[0])
        if h.op == "hasher":
            st = st.copy()
            if name == "finish":
                return ret(st, mk("app", "hashof", h.a[0]))
            if args[0].op == "mref":
                I.wr(st, args[0].a[0], args[0].a[1], mk("hasher", h.a[0] + (I.resolve(st, args[1]),)))
                return ret(st, UNIT)
    if path.startswith("serde_json::"):
        if name in ("to_value", "to_string", "to_vec"):
            a = I.resolve(st, args[0])
            return fork_ok(I, st.copy(), mk("ok", name, a), APP("json" if name == "to_value" else "json_" + name, a), mk("encerr", a))
        if name in ("from_value", "from_str", "from_slice"):
            a = I.resolve(st, args[0])
            tgt = (c.get("ga") or [""])[-1]
            if a.op == "app" and a.a[0] == "json":
                dec = a.a[1][0]
            else:
                dec = APP("unjson", a)
            return fork_ok(I, st.copy(), mk("ok", name, a, norm(tgt)), dec, mk("decerr", a))
    if path.endswith("Error::other") or path.endswith("std::io::Error>::other"):
        return ret(st.copy(), APP("ioerr", I.resolve(st, args[0])))
    if path.startswith("std::thread::sleep"):
        st = st.copy()
        st.emit("block", "thread::sleep", tuple(args))
        return ret(st, UNIT)
    if "downcast_ref" == name or name == "downcast":
        a = I.resolve(st, args[0])
        tgt = (c.get("ga") or [""])[-1]
        if name == "downcast_ref":
            return fork_opt(I, st.copy(), mk("isa", tgt, a), APP("cast_" + strip_ref(tgt).split("::")[-1], a))
        return fork_ok(I, st.copy(), mk("isa", tgt, a), APP("cast_" + strip_ref(tgt).split("::")[-1], a), a)
    if path.startswith("tokio::task::JoinError::"):
        a = I.resolve(st, args[0])
        if name in ("try_into_panic",):
            return fork_ok(I, st.copy(), mk("is_panic", a), APP("panic_payload", a), a)
        if name == "into_panic":
            return ret(st.copy(), APP("panic_payload", a))
        if name == "is_panic":
            return ret(st.copy(), isin(mk("is_panic", a), (1,)))
        if name == "is_cancelled":
            return ret(st.copy(), isin(mk("is_panic", a), (0,)))
    return None


# ---- Vec / slice / HashMap / iterators ---------------------------------------------------------------------


def is_slicepath(path):
    return path.startswith(("core::slice::<impl [T]>::", "std::slice::<impl [T]>::", "std::vec::Vec::", "core::array::<impl [T; N]>::", "std::collections::VecDeque::"))


def bulk(I, st, ref, f):
    st = st.copy()
    I.wr(st, ref.a[0], ref.a[1], f(I.rd(st, ref.a[0], ref.a[1])))
    return st


def h_coll(I, st, c, path, tr, name, args, site, dty):
    sn = sname(I, site)
    # --- constructors
    if path in ("std::vec::Vec::new", "std::vec::Vec::with_capacity", "std::collections::HashMap::new", "std::collections::HashSet::new",
                "std::collections::HashMap::with_capacity", "std::collections::VecDeque::new", "std::collections::BTreeMap::new"):
        return ret(st.copy(), EMPTY)
    if path == "std::vec::from_elem":
        return ret(st.copy(), APP("from_elem", *args))
    if is_slicepath(path):
        r = slice_fn(I, st, c, path, name, args, site, dty)
        if r is not None:
            return r
    if tr == "std::iter::IntoIterator" and name == "into_iter":
        a = args[0]
        mut = "&mut" in strip_life(first_ga(c))[:5] or "mut" in first_ga(c)[:12] and first_ga(c).startswith("&")
        if a.op == "mref" and not mut:
            v = val(I, st, a)
            if v.op == "it":
                return ret(st.copy(), a)
            a = v
        return ret(st.copy(), mk_iter(I, st, a, mut))
    if path in ("std::iter::once",):
        return ret(st.copy(), mk_iter(I, st, mk("arr", (args[0],))))
    if path in ("std::iter::empty",):
        return ret(st.copy(), mk_iter(I, st, EMPTY))
    if path.startswith("std::collections::") or path.startswith("std::collections::hash_map"):
        r = map_fn(I, st, c, path, name, args, site, dty)
        if r is not None:
            return r
    if tr == "std::ops::Index" and name == "index" or tr == "std::ops::IndexMut" and name == "index_mut":
        v = val(I, st, args[0])
        ix = val(I, st, args[1])
        st = st.copy()
        if ix.op == "adt" and ix.a[0].endswith("::RangeFull"):
            return ret(st, v if name == "index" else args[0])
        if ix.op == "adt" and "Range" in ix.a[0]:
            maypanic(st, "index", ix, sn)
            return ret(st, mk("slice", v, ix))
        if not (v.op == "arr" and ix.op == "int" and ix.a[0] < len(v.a[0])) and ix.op != "ixof":
            maypanic(st, "index", ix, sn)
        if name == "index":
            return ret(st, index_read(I, st, v, ix))
        if args[0].op == "mref":
            if ix.op == "ixof":
                return ret(st, mk("mref", mk("E", v, ix.a[1]), ()))
            return ret(st, mk("mref", args[0].a[0], args[0].a[1] + (("ix", ix),)))
        return None
    if tr == "std::iter::Extend" and name == "extend" and args[0].op == "mref":
        src = mk_iter(I, st, args[1])
        if src.op == "mref":
            src = val(I, st, src)
        cur = val(I, st, args[0])
        if src.op == "it" and src.a[0].op == "arr" and not src.a[2] and cur.op == "arr":
            return ret(bulk(I, st, args[0], lambda o: mk("arr", o.a[0] + src.a[0].a[0])), UNIT)
        if src.op == "it":
            r = collect(I, st, src, site)
            if r is None:
                outs = unroll(I, st, src, site)
                res = []
                for s, items in outs:
                    res.append(Out(bulk(I, s, args[0], lambda o: extended(o, mk("arr", items))), "ret", UNIT))
                return res
            v, s, extra = r
            return extra + ret(bulk(I, s, args[0], lambda o: extended(o, v)), UNIT)
    if tr and tr.startswith("std::iter::") or "std::iter::Iterator" in path or path.startswith("std::iter::"):
        return iter_fn(I, st, c, path, tr, name, args, site, dty)
    if tr == "std::iter::DoubleEndedIterator":
        return iter_fn(I, st, c, path, tr, name, args, site, dty)
    return None


def strip_life(t):
    t = t.strip()
    if t.startswith("&'"):
        return "&" + t.split(" ", 1)[1] if " " in t else t
    return t


def unroll(I, st, it, site):
    """concrete array source -> [(st, items tuple)]"""
    cur = [(st, ())]
    for x in it.a[0].a[0]:
        nxt = []
        for s, acc in cur:
            for q, k, y in run_stages(I, s, it.a[2], x, site):
                if k == "yield":
                    nxt.append((q, acc + (y,)))
                elif k in ("skip",):
                    nxt.append((q, acc))
        cur = nxt
    return cur


def slice_fn(I, st, c, path, name, args, site, dty):
    sn = sname(I, site)
    a0 = args[0] if args else None
    v = val(I, st, a0) if a0 is not None else None
    if name in ("iter", "into_iter"):
        return ret(st.copy(), mk_iter(I, st, v))
    if name == "iter_mut":
        return ret(st.copy(), mk_iter(I, st, a0, True))
    if name == "drain" and a0.op == "mref":
        it = mk_iter(I, st, v)
        st = st.copy()
        I.wr(st, a0.a[0], a0.a[1], mk("drained", v, val(I, st, args[1])))
        return ret(st, it)
    if name in ("len",):
        if v.op == "arr":
            return ret(st.copy(), INT(len(v.a[0])))
        return ret(st.copy(), APP("len", coll_key(I, st, v, site)))
    if name == "is_empty":
        if v.op == "arr":
            return ret(st.copy(), INT(not v.a[0]))
        return ret(st.copy(), NOT(exists(I, st, mk_iter(I, st, v), site)))
    if name == "contains":
        x = I.resolve(st, args[1])
        ty = first_ga(c)
        if v.op == "arr":
            acc = FALSE
            for y in v.a[0]:
                e = eq_values(ty, I.resolve(st, y), x)
                if e is TRUE:
                    return ret(st.copy(), TRUE)
                if e is FALSE:
                    continue
                acc = e if acc is FALSE else mk("or", acc, e)
            return ret(st.copy(), acc)
        bv = bvar(I)
        return ret(st.copy(), any_of(I, st, v, lambda e: eq_values(ty, e, x)))
    if name == "push" and a0.op == "mref":
        x = args[1]
        return ret(bulk(I, st, a0, lambda o: mk("arr", o.a[0] + (x,)) if o.op == "arr" else mk("push", o, keep_elem(I, st, x))), UNIT)
    if name in ("push_back",) and a0.op == "mref":
        return ret(bulk(I, st, a0, lambda o: mk("arr", o.a[0] + (args[1],)) if o.op == "arr" else mk("push", o, keep_elem(I, st, args[1]))), UNIT)
    if name == "insert" and a0.op == "mref" and len(args) == 3:
        return ret(bulk(I, st, a0, lambda o: mk("inserted", o, args[1], I.resolve(st, args[2]))), UNIT)
    if name in ("extend_from_slice", "append") and a0.op == "mref":
        x = I.resolve(st, args[1])
        return ret(bulk(I, st, a0, lambda o: extended(o, x)), UNIT)
    if name == "clear" and a0.op == "mref":
        return ret(bulk(I, st, a0, lambda o: EMPTY), UNIT)
    if name in ("dedup", "dedup_by", "dedup_by_key") and a0.op == "mref":
        return ret(bulk(I, st, a0, lambda o: mk("deduped", o)), UNIT)
    if name == "truncate" and a0.op == "mref":
        return ret(bulk(I, st, a0, lambda o: mk("truncated", o, args[1])), UNIT)
    if name in ("reserve", "shrink_to_fit"):
        return ret(st.copy(), UNIT)
    if name in ("pop", "pop_front", "pop_back") and a0.op == "mref":
        st = st.copy()
        if v.op == "arr":
            if not v.a[0]:
                return ret(st, OPT())
            i = 0 if name == "pop_front" else len(v.a[0]) - 1
            I.wr(st, a0.a[0], a0.a[1], mk("arr", v.a[0][:i] + v.a[0][i + 1:]))
            return ret(st, OPT(v.a[0][i]))
        I.wr(st, a0.a[0], a0.a[1], mk("popped", v))
        return ret(st, opaque(I, st, "pop", [v]))
    if name in ("remove", "swap_remove") and a0.op == "mref":
        ix = val(I, st, args[1])
        st = st.copy()
        if ix.op == "ixof":
            x = I.rd(st, mk("E", v, ix.a[1]), ())
            I.wr(st, a0.a[0], a0.a[1], mk("removed", v, ix.a[1]))
            return ret(st, x)
        maypanic(st, "remove", ix, sn)
        I.wr(st, a0.a[0], a0.a[1], mk("removed", v, ix))
        return ret(st, mk("elem", v, ix))
    if name in ("first", "last", "first_mut", "last_mut", "get", "get_mut"):
        if name.startswith("get"):
            ix = val(I, st, args[1])
            if v.op == "arr" and ix.op == "int":
                return ret(st.copy(), OPT(v.a[0][ix.a[0]]) if ix.a[0] < len(v.a[0]) else OPT())
            if ix.op == "ixof":
                if name == "get_mut":
                    return ret(st.copy(), OPT(mk("mref", mk("E", v, ix.a[1]), ())))
                return ret(st.copy(), OPT(I.rd(st, mk("E", v, ix.a[1]), ())))
            if not (ix.op == "int" and ix.a[0] == 0):
                return fork_opt(I, st.copy(), mk("hasix", v, ix), mk("elem", v, ix))
        if v.op == "arr":
            if not v.a[0]:
                return ret(st.copy(), OPT())
            i = 0 if name.startswith("first") else len(v.a[0]) - 1
            if name.endswith("_mut"):
                return ret(st.copy(), OPT(mk("mref", a0.a[0], a0.a[1] + (("ix", INT(i)),))))
            return ret(st.copy(), OPT(v.a[0][i]))
        it = mk_iter(I, st, a0 if name.endswith("_mut") else v, name.endswith("_mut"))
        return pick(I, st, it, site, "first" if not name.startswith("last") else "last")
    if name in ("sort_by", "sort_unstable_by", "sort_by_key", "sort_by_cached_key", "sort_unstable_by_key", "sort", "sort_unstable") and a0.op == "mref":
        ga = c.get("ga") or [""]
        if name in ("sort", "sort_unstable"):
            return sort_model(I, st, a0, lambda s, a, b: cmp_values(I, s, a, b, ga[0], site), site)
        if name in ("sort_by", "sort_unstable_by"):
            return sort_model(I, st, a0, lambda s, a, b: I.call_value(s, args[1], [a, b], site), site)
        kty = ga[1] if len(ga) > 1 else ""
        return sort_model(I, st, a0, lambda s, a, b: by_key(I, s, args[1], a, b, kty, site), site)
    if name in ("retain", "retain_mut") and a0.op == "mref":
        return retain(I, st, a0, args[1], site)
    if name in ("split_first", "split_last"):
        if v.op == "arr":
            if not v.a[0]:
                return ret(st.copy(), OPT())
            x, rest = (v.a[0][0], v.a[0][1:]) if name == "split_first" else (v.a[0][-1], v.a[0][:-1])
            return ret(st.copy(), OPT(mk("tup", (x, mk("arr", rest)))))
        ne = exists(I, st, mk_iter(I, st, v), site)
        outs = []
        for s, r in I.branch(st, ne):
            s = s.copy()
            if not r:
                outs.append(Out(s, "ret", OPT()))
            else:
                outs.append(Out(s, "ret", OPT(mk("tup", (mk("endof", name, v), mk("rest", name, v))))))
        return outs
    if name in ("join", "concat"):
        return ret(st.copy(), APP(name, *[I.resolve(st, a) for a in args]))
    if name == "reverse" and a0.op == "mref":
        return ret(bulk(I, st, a0, lambda o: mk("arr", tuple(reversed(o.a[0]))) if o.op == "arr" else (mk("comp", o.a[0], o.a[1], mk("ord", "rev", o.a[2]), o.a[3], o.a[4]) if o.op == "comp" else mk("reversed", o))), UNIT)
    if name in ("map",) and v.op == "arr":
        cur = [(st, ())]
        for x in v.a[0]:
            cur = [(o.st, acc + (o.val,)) for s, acc in cur for o in I.call_value(s, args[1], [x], site) if o.kind == "ret"]
        return [Out(s, "ret", mk("arr", acc)) for s, acc in cur]
    return None


def coll_key(I, st, v, site):
    return v


def any_of(I, st, src, pred):
    """∃ element e of src: pred(e) is true"""
    bv = bvar(I)
    dnf = []
    s0 = st
    for q, e in base_elems(I, s0, src, "v", bv):
        b = pred(e)
        if b.op == "mref":
            b = val(I, q, b)
        for s, r in I.branch(q, b):
            if r:
                dnf.append(facts_delta(s0, s))
    return any_atom(I, src, bv, dnf)


def by_key(I, st, f, a, b, kty, site):
    outs = []
    for o in I.call_value(st, f, [a], site):
        if o.kind != "ret":
            outs.append(o)
            continue
        for o2 in I.call_value(o.st, f, [b], site):
            if o2.kind != "ret":
                outs.append(o2)
                continue
            outs += cmp_values(I, o2.st, o.val, o2.val, kty, site)
    return outs


def retain(I, st, ref, clo, site):
    v = val(I, st, ref)
    it = mk("it", v, "v", (), "start")
    try:
        bv, cases, src = cases_of(I, st, it, site, mk("stage", "filter", clo))
        keep = formula.canon([c for c, _ in cases])
        return ret(bulk(I, st, ref, lambda o: mk("retained", root_src(o) if o.op == "comp" else o, bv, keep)), UNIT)
    except Impure:
        s, tag, outs = iter_loop(I, st, it, site, (mk("stage", "filter", clo),))
        k = count(s, "retain")
        return outs + ret(bulk(I, s, ref, lambda o: mk("retained_by", o, tag, k)), UNIT)


def map_fn(I, st, c, path, name, args, site, dty):
    a0 = args[0] if args else None
    v = val(I, st, a0) if a0 is not None else None
    if "Entry" in path:
        if v.op == "entry" and name in ("or_default", "or_insert", "or_insert_with"):
            m, k, r = v.a
            ref = mk("mref", mk("E", m, mk("key", k)), ())
            if name == "or_default":
                return ret(st.copy(), ref)
            outs = []
            for o in (I.call_value(st.copy(), args[1], [], site) if name == "or_insert_with" else ret(st.copy(), args[1])):
                if o.kind != "ret":
                    outs.append(o)
                    continue
                d = I.resolve(o.st, o.val)
                if d.op == "arr" and not d.a[0]:
                    outs.append(Out(o.st.copy(), "ret", ref))
                    continue
                for s, has in I.branch(o.st, isin(mk("haskey", m, k), (1,))):
                    s = s.copy()
                    if not has:
                        I.wr(s, ref.a[0], (), d)
                    outs.append(Out(s, "ret", ref))
            return outs
        if v.op == "entry" and name == "and_modify":
            m, k, r = v.a
            outs = []
            for s, has in I.branch(st, isin(mk("haskey", m, k), (1,))):
                if not has:
                    outs.append(Out(s.copy(), "ret", v))
                    continue
                for o in I.call_value(s.copy(), args[1], [mk("mref", mk("E", m, mk("key", k)), ())], site):
                    outs.append(Out(o.st, "ret", v) if o.kind == "ret" else o)
            return outs
        return None
    if name == "entry" and a0.op == "mref":
        k = I.resolve(st, args[1])
        return ret(st.copy(), mk("entry", v, k, a0))
    if name in ("get", "get_mut", "contains_key", "contains"):
        k = I.resolve(st, args[1])
        outs = []
        for s, r in I.branch(st, isin(mk("haskey", v, k), (1,))):
            s = s.copy()
            if name in ("contains_key", "contains"):
                outs.append(Out(s, "ret", INT(r)))
            elif not r:
                outs.append(Out(s, "ret", OPT()))
            elif name == "get_mut":
                outs.append(Out(s, "ret", OPT(mk("mref", mk("E", v, mk("key", k)), ()))))
            else:
                outs.append(Out(s, "ret", OPT(I.rd(s, mk("E", v, mk("key", k)), ()))))
        return outs
    if name in ("values", "values_mut", "iter", "into_values", "keys", "iter_mut"):
        if name == "keys":
            return ret(st.copy(), mk_iter(I, st, mk("keys", v)))
        if name in ("iter", "iter_mut"):
            it = mk_iter(I, st, v)
            return ret(st.copy(), mk_iter(I, st, mk("entries", v)))
        return ret(st.copy(), mk_iter(I, st, a0 if name == "values_mut" else v, name == "values_mut"))
    if name == "insert" and a0.op == "mref":
        st2 = bulk(I, st, a0, lambda o: mk("ins", o, I.resolve(st, args[1]), I.resolve(st, args[2]) if len(args) > 2 else UNIT))
        return ret(st2, opaque(I, st2, "insert", [v]))
    if name == "is_empty":
        return ret(st.copy(), NOT(exists(I, st, mk_iter(I, st, v), site)))
    if name == "len":
        return ret(st.copy(), APP("len", v))
    return None


def iter_fn(I, st, c, path, tr, name, args, site, dty):
    a0 = args[0]
    raw = val(I, st, a0)
    if raw.op == "adt" and raw.a[0].startswith("std::ops::Range"):
        d = dict(raw.a[2])
        if name == "next" and a0.op == "mref":
            lo, hi = d.get("start"), d.get("end")
            st = st.copy()
            if lo is None:
                return None
            incl = "Inclusive" in raw.a[0]
            outs = []
            for s, r in I.branch(st, numcmp("Le" if incl else "Lt", lo, hi)):
                s = s.copy()
                if r:
                    I.wr(s, a0.a[0], a0.a[1] + ("start",), ladd(lo, INT(1)))
                    outs.append(Out(s, "ret", OPT(lo)))
                else:
                    outs.append(Out(s, "ret", OPT()))
            return outs
        if all(x.op == "int" for x in (d.get("start", UNIT), d.get("end", UNIT))) and d["end"].a[0] - d["start"].a[0] < 64:
            raw = mk("it", mk("arr", tuple(INT(i) for i in range(d["start"].a[0], d["end"].a[0]))), "v", (), "start")
            a0 = raw
        else:
            raw = mk("it", mk("range", d.get("start", UNIT), d.get("end", UNIT)), "v", (), "start")
            a0 = raw
    if raw.op != "it":
        if name == "next" and raw.op not in ("arr",):
            return None  # opaque iterator: other handlers
        if raw.op in ("upcoming",):
            return None
        if name in ("size_hint",):
            return None
        if raw.op in ("res", "sym", "havoc", "opq", "upcoming", "app"):
            if name in ("map", "filter", "take", "skip", "peekable", "by_ref", "cloned", "filter_map") or True:
                raw = mk("it", raw, "v", (), "start")
        else:
            raw = mk_iter(I, st, raw)
            if raw.op == "mref":
                raw = val(I, st, raw)
    it = raw
    st = st.copy()
    if name in MOVE_STAGES:
        return ret(st, stage(I, st, it, mk("stage", name, args[1]), site))
    if name in ITER_OWN:
        return ret(st, stage(I, st, it, mk("stage", "own")))
    if name in ("take", "skip", "step_by"):
        return ret(st, stage(I, st, it, mk("stage", name, I.resolve(st, args[1]))))
    if name == "rev":
        if it.a[0].op == "arr":
            return ret(st, mk("it", mk("arr", tuple(reversed(it.a[0].a[0]))), it.a[1], it.a[2], it.a[3]))
        return ret(st, stage(I, st, it, mk("stage", "rev")))
    if name == "enumerate":
        if it.a[0].op == "arr" and not it.a[2]:
            return ret(st, mk("it", mk("arr", tuple(mk("tup", (INT(i), x)) for i, x in enumerate(it.a[0].a[0]))), "v", (), "start"))
        return ret(st, stage(I, st, it, mk("stage", "enumerate")))
    if name in ("by_ref",):
        return ret(st, a0)
    if name in ("fuse", "peekable", "into_iter"):
        return ret(st, it)
    if name in ("chain",):
        other = mk_iter(I, st, args[1])
        if it.a[0].op == "arr" and not it.a[2] and other.op == "it" and other.a[0].op == "arr" and not other.a[2]:
            return ret(st, mk("it", mk("arr", it.a[0].a[0] + other.a[0].a[0]), "v", (), "start"))
        if it.a[0].op == "arr" and not it.a[0].a[0]:
            return ret(st, other)
        if other.op == "it" and other.a[0].op == "arr" and not other.a[0].a[0]:
            return ret(st, it)
        return ret(st, mk("it", mk("chain", it, other), "v", (), "start"))
    if name == "flatten" and it.a[0].op == "arr" and not it.a[2]:
        items = it.a[0].a[0]
        if not items:
            return ret(st, it)
        inner = [mk_iter(I, st, x) for x in items]
        if len(inner) == 1 and inner[0].op == "it":
            return ret(st, inner[0])
        if all(x.op == "it" and x.a[0].op == "arr" and not x.a[2] for x in inner):
            return ret(st, mk("it", mk("arr", sum((x.a[0].a[0] for x in inner), ())), "v", (), "start"))
    if name in ("zip", "flat_map", "flatten", "scan"):
        return ret(st, mk("it", mk(name, it, I.resolve(st, args[1]) if len(args) > 1 else UNIT), "v", (), "start"))
    if name == "next" and a0.op == "mref":
        return it_next(I, st, a0, it, site)
    if it.a[0].op == "arr" and (name not in ("collect",) or True):
        r = concrete_consumer(I, st, c, name, it, args, site, dty)
        if r is not None:
            return r
    if name in ("any", "all", "find", "find_map", "position", "count"):
        it = settle(I, st, it, site)
    if name in ("any", "all"):
        neg = name == "all"
        clo = args[1]
        try:
            bv = bvar(I)
            I.bdepth += 1
            dnf = []
            try:
                s0 = st.copy()
                for q, v in base_elems(I, s0, it.a[0], it.a[1], bv):
                    for q2, k, x in run_stages(I, q, it.a[2], v, site):
                        if k != "yield":
                            continue
                        for o in I.call_value(q2, clo, [x], site):
                            if o.kind != "ret":
                                raise Impure()
                            for s, r in I.branch(o.st, val(I, o.st, o.val)):
                                if not only_benign(s.ev, s0.ev) or mem_changed(s0, s):
                                    raise Impure()
                                if r != neg:
                                    dnf.append(pdelta(I, s0, s))
            finally:
                I.bdepth -= 1
            b = any_atom(I, it.a[0], bv, dnf)
            return ret(st, NOT(b) if neg else b)
        except Impure:
            s, tag, outs = iter_loop(I, st, it, site, mk("stage", "tryeach", clo, "bool", "true" if neg else "false"))
            return outs + ret(s, isin(opaque(I, s, name, [root_src(it.a[0])]), (1,)))
    if name in ("find",):
        return pick(I, st, it, site, "first", mk("stage", "filter", args[1]))
    if name in ("find_map",):
        return pick(I, st, it, site, "first", mk("stage", "filter_map", args[1]))
    if name in ("position",):
        outs = []
        for o in pick(I, st, it, site, "first", mk("stage", "filter", args[1])):
            if o.kind == "ret" and o.val.a[1] == "Some":
                tag = evlist(o.st.ev)[-1].a[3] if evlist(o.st.ev)[-1].a[0] == "pick" else mk("bv", "?")
                o.val = OPT(mk("ixof", root_src(it.a[0]), tag))
            outs.append(o)
        return outs
    if name in ("min", "max", "min_by_key", "max_by_key", "min_by", "max_by", "last"):
        return minmax(I, st, c, name, it, args, site)
    if name in ("count",):
        try:
            bv, cases, src = cases_of(I, st, it, site)
            return ret(st, count_term(src, bv, [x for x, _ in cases]))
        except Impure:
            s, tag, outs = iter_loop(I, st, it, site, None)
            return outs + ret(s, opaque(I, s, "count", []))
    if name in ("for_each", "try_for_each"):
        sg = mk("stage", "map", args[1])
        if name == "try_for_each":
            for pth, go in (("std::result::Result", "Ok"), ("std::option::Option", "Some"), ("std::ops::ControlFlow", "Continue")):
                if dty.startswith(pth + "<"):
                    sg = mk("stage", "tryeach", args[1], pth, go)
                    break
            else:
                raise Bail("try_for_each into " + dty)
        s, tag, outs = iter_loop(I, st, it, site, sg)
        return outs + ret(s, UNIT if name == "for_each" else opaque(I, s, name, []))
    if name in ("fold", "try_fold", "sum", "product", "reduce"):
        v = fold_model(I, st, c, name, it, args, site, dty)
        if v is not None:
            return v
    if name in ("collect", "unzip", "partition"):
        return collect_fn(I, st, c, it, site, dty)
    if name in ("nth",):
        return pick(I, st, stage(I, st, it, mk("stage", "shape", I.resolve(st, args[1]))), site, "first")
    if name == "next_back":
        return pick(I, st, it, site, "last")
    return None


def it_next(I, st, ref, it, site):
    src, mode, stages, cur = it.a
    if src.op == "arr":
        work = [(st, src.a[0])]
        outs = []
        while work:
            s, items = work.pop()
            if not items:
                s = s.copy()
                I.wr(s, ref.a[0], ref.a[1], mk("it", EMPTY, mode, stages, "end"))
                outs.append(Out(s, "ret", OPT()))
                continue
            for q, k, x in run_stages(I, s, stages, items[0], site):
                if k == "yield":
                    q = q.copy()
                    I.wr(q, ref.a[0], ref.a[1], mk("it", mk("arr", items[1:]), mode, stages, "mid"))
                    outs.append(Out(q, "ret", OPT(x)))
                elif k == "skip":
                    work.append((q, items[1:]))
                elif k != "stop":
                    outs.append(Out(q, k, None, x))
        return outs
    if any(s.a[0] in ("rev", "take", "skip", "step_by", "shape") for s in stages) or src.op == "comp" and (src.a[2].a[0] != "iter"):
        if cur == "start":
            outs = pick(I, st, it, site, "first")
            for o in outs:
                if o.kind == "ret":
                    I.wr(o.st, ref.a[0], ref.a[1], mk("it", src, mode, stages, "mid"))
            return outs
    sn = sname(I, site)
    outs = []
    some = mk("nx", "next", sn, 0, "cur")
    SITES[some] = site
    try:
        if cur == "start":
            bv, cases, _ = cases_of(I, st, it, site)
            b = any_atom(I, src, bv, [x for x, _ in cases])
        else:
            b = None
    except Impure:
        b = None
    br = I.branch(st, b) if b is not None else [(st.copy(), True), (st.copy(), False)]
    for s, r in br:
        s = s.copy()
        if not r:
            I.wr(s, ref.a[0], ref.a[1], mk("it", src, mode, stages, "end"))
            s.emit("iterend", src, mk("it", src, mode, stages, "start"), some)
            outs.append(Out(s, "ret", OPT()))
            continue
        tag = some
        I.wr(s, ref.a[0], ref.a[1], mk("it", src, mode, stages, "mid"))
        for q, v in base_elems(I, s, src, mode, tag):
            for q2, k, x in run_stages(I, q, stages, v, site):
                if k == "yield":
                    q2 = q2.copy()
                    q2.emit("inext", src, mk("it", src, mode, stages, "start"), tag)
                    outs.append(Out(q2, "ret", OPT(x)))
                elif k in ("panic", "div"):
                    outs.append(Out(q2, k, None, x))
    return outs


def concrete_consumer(I, st, c, name, it, args, site, dty):
    items = it.a[0].a[0]
    if len(items) > 24:
        return None
    if name in ("any", "all", "find", "position", "find_map"):
        outs = []
        work = [(st, 0)]
        while work:
            s, i = work.pop()
            if i == len(items):
                outs.append(Out(s.copy(), "ret", {"any": FALSE, "all": TRUE}.get(name, OPT())))
                continue
            for q, k, x in run_stages(I, s, it.a[2], items[i], site):
                if k == "skip":
                    work.append((q, i + 1))
                    continue
                if k != "yield":
                    continue
                for o in I.call_value(q, args[1], [x], site):
                    if o.kind != "ret":
                        outs.append(o)
                        continue
                    if name == "find_map":
                        for q2, r in I.branch(o.st, isin(mkdisc(o.val, "std::option::Option"), ("Some",))):
                            if r:
                                outs.append(Out(q2.copy(), "ret", o.val))
                            else:
                                work.append((q2, i + 1))
                        continue
                    for q2, r in I.branch(o.st, val(I, o.st, o.val)):
                        if name == "all":
                            if r:
                                work.append((q2, i + 1))
                            else:
                                outs.append(Out(q2.copy(), "ret", FALSE))
                        elif r:
                            outs.append(Out(q2.copy(), "ret", {"any": TRUE, "find": OPT(x), "position": OPT(INT(i))}[name]))
                        else:
                            work.append((q2, i + 1))
        return outs
    if name in ("for_each",):
        cur = [st]
        outs = []
        for x in items:
            nxt = []
            for s in cur:
                for q, k, y in run_stages(I, s, it.a[2], x, site):
                    if k == "skip":
                        nxt.append(q)
                        continue
                    if k != "yield":
                        continue
                    for o in I.call_value(q, args[1], [y], site):
                        if o.kind == "ret":
                            nxt.append(o.st)
                        else:
                            outs.append(o)
            cur = nxt
        return outs + [Out(s.copy(), "ret", UNIT) for s in cur]
    if name == "collect":
        outs = []
        if "std::result::Result<" == dty[:20] or dty.startswith("std::option::Option<"):
            return collect_result_arr(I, st, it, site, dty)
        for s, acc in unroll(I, st, it, site):
            outs.append(Out(s.copy(), "ret", coll_wrap(I, mk("arr", acc), dty)))
        return outs
    if name in ("count",) and not it.a[2]:
        return ret(st, INT(len(items)))
    if name in ("last", "min", "max") and not items:
        return ret(st, OPT())
    return None


def collect_result_arr(I, st, it, site, dty):
    ok = "Ok" if dty.startswith("std::result::Result") else "Some"
    path = "std::result::Result" if ok == "Ok" else "std::option::Option"
    cur = [(st, ())]
    outs = []
    for x in it.a[0].a[0]:
        nxt = []
        for s, acc in cur:
            for q, k, y in run_stages(I, s, it.a[2], x, site):
                if k == "skip":
                    nxt.append((q, acc))
                if k != "yield":
                    continue
                y = val(I, q, y)
                for q2, r in I.branch(q, isin(mkdisc(y, path), (ok,))):
                    if r:
                        nxt.append((q2, acc + (fld(dc(y, ok), "0"),)))
                    else:
                        outs.append(Out(q2.copy(), "ret", ERR(fld(dc(y, "Err"), "0")) if ok == "Ok" else OPT()))
        cur = nxt
    for s, acc in cur:
        v = mk("arr", acc)
        outs.append(Out(s.copy(), "ret", OK(v) if ok == "Ok" else OPT(v)))
    return outs


def coll_wrap(I, v, dty):
    if "Futures" in dty:
        return mk("futs", mk("it", v, "v", (), "start"))
    return v


def collect_fn(I, st, c, it, site, dty):
    if "FuturesOrdered" in dty or "FuturesUnordered" in dty:
        return ret(st, mk("futs", it))
    if dty.startswith("std::result::Result<") or dty.startswith("std::option::Option<"):
        ok, path, mkok = ("Ok", "std::result::Result", OK) if dty.startswith("std::result") else ("Some", "std::option::Option", OPT)
        try:
            bv = bvar(I)
            I.bdepth += 1
            good, bad = {}, {}
            try:
                s0 = st.copy()
                for q, v in base_elems(I, s0, it.a[0], it.a[1], bv):
                    for q2, k, x in run_stages(I, q, it.a[2], v, site):
                        if k in ("panic",):
                            raise Impure()
                        if k != "yield":
                            continue
                        x = val(I, q2, x)
                        for q3, r in I.branch(q2, isin(mkdisc(x, path), (ok,))):
                            if not only_benign(q3.ev, s0.ev) or mem_changed(s0, q3):
                                raise Impure()
                            if r:
                                x2 = I.resolve(q3, fld(dc(x, ok), "0"))
                                good.setdefault(x2, []).append(pdelta(I, s0, q3, x2))
                            else:
                                e = I.resolve(q3, fld(dc(x, "Err"), "0")) if ok == "Ok" else UNIT
                                bad.setdefault(e, []).append(pdelta(I, s0, q3))
            finally:
                I.bdepth -= 1
        except Impure:
            s, tag, outs = iter_loop(I, st, it, site, None)
            v = opaque(I, s, "collect", [root_src(it.a[0])])
            return outs + ret(s, v)
        src = it.a[0]
        badd = [x for d in bad.values() for x in d]
        b = any_atom(I, src, bv, badd)
        outs = []
        for s, r in I.branch(st, b):
            s = s.copy()
            if r:
                sn = sname(I, site)
                tag = mk("nx", "first", sn, count(s, ("nx", sn)), "cur")
                s.emit("pick", "first", root_src(src), tag, tuple(formula_term(formula.canon(badd))), src.a[2] if src.op == "comp" else mk("ord", "iter"), shape_of(it.a[2]), bv)
                for e, dnf in bad.items():
                    for conj in formula.canon(dnf):
                        q = s
                        for a, x in sorted(conj, key=lambda z: z[0].uid):
                            q = I.add_fact(q, subst(a, {bv: tag}), x) if q is not None else None
                        if q is not None:
                            outs.append(Out(q.copy(), "ret", ERR(subst(e, {bv: tag})) if ok == "Ok" else OPT()))
            else:
                cases = tuple((conj, v) for v, dnf in good.items() for conj in formula.canon(dnf))
                order = src.a[2] if src.op == "comp" else mk("ord", "iter")
                shape = (src.a[3] if src.op == "comp" else ()) + shape_of(it.a[2])
                outs.append(Out(s, "ret", mkok(comp_of(src, cases, it.a[2], bv))))
        return outs
    r = collect(I, st, it, site)
    if r is None:
        return None
    v, s, extra = r
    return extra + ret(s.copy(), v)


def minmax(I, st, c, name, it, args, site):
    ga = c.get("ga") or [""]
    if name == "last":
        return pick(I, st, it, site, "last")
    try:
        bv, cases, src = cases_of(I, st, it, site)
    except Impure:
        return pick(I, st, it, site, "first")
    vals = {v for _, v in cases}
    o = None
    if len(vals) == 1:
        v = next(iter(vals))

        def el(w):
            return subst(v, {bv: w})
        if name in ("min", "max"):
            ty = value_type(I, st, it, c)
            o = less_of(I, st, lambda s, a, b: cmp_values(I, s, el(a), el(b), ty, site), site)
        elif name.endswith("_by"):
            o = less_of(I, st, lambda s, a, b: I.call_value(s, args[1], [el(a), el(b)], site), site)
        else:
            kty = ga[1] if len(ga) > 1 else ""
            o = less_of(I, st, lambda s, a, b: by_key(I, s, args[1], el(a), el(b), kty, site), site)
    if o is None:
        o = mk("ord", "unknown", sname(I, site))
    return pick(I, st, it, site, "min" if name.startswith("min") else "max", None, o)


def value_type(I, st, it, c):
    return "chrono::DateTime"


def fold_model(I, st, c, name, it, args, site, dty):
    init = val(I, st, args[1]) if len(args) == 3 else None
    shaped = any(x.a[0] in ("rev", "take", "skip", "step_by", "shape") for x in it.a[2])
    if name == "fold" and it.a[0].op == "arr" and it.a[3] == "start" and not shaped:
        # a known list: step by step
        work = [(st.copy(), args[1])]
        outs = []
        for x in it.a[0].a[0]:
            nxt = []
            for q, acc in work:
                for q2, k, v in run_stages(I, q, it.a[2], x, site):
                    if k == "skip":
                        nxt.append((q2, acc))
                    elif k == "yield":
                        for o in I.call_value(q2, args[2], [acc, v], site):
                            if o.kind == "ret":
                                nxt.append((o.st, o.val))
                            else:
                                outs.append(o)
                    elif k == "stop":
                        outs += ret(q2, acc)
                    else:
                        outs.append(Out(q2, k, None, v))
            work = nxt
        for q, acc in work:
            outs += ret(q, acc)
        return outs
    if name == "fold" and dty == "bool" and init.op == "int" and it.a[3] == "start" and not shaped:
        # once it has left its first value it stays: whether there is an element that makes it leave
        try:
            other = INT(1 - init.a[0])
            _, back, _ = cases_of(I, st, it, site, mk("stage", "foldstep", args[2], other))
            if all(v is other for _, v in back):
                bv, cases, src = cases_of(I, st, it, site, mk("stage", "foldstep", args[2], init))
                b = any_atom(I, src, bv, [x for x, v in cases if v is other])
                return ret(st.copy(), b if init.a[0] == 0 else NOT(b))
        except Impure:
            pass
    s, tag, outs = iter_loop(I, st, it, site, None)
    return outs + ret(s, mk("app", name, (root_src(it.a[0]),) + tuple(I.resolve(s, a) for a in args[1:])))


# ---- concurrency -----------------------------------------------------------------------------------------


def h_conc(I, st, c, path, tr, name, args, site, dty):
    sn = sname(I, site)
    a0 = val(I, st, args[0]) if args else None
    if path.startswith(("std::sync::RwLock::", "std::sync::Mutex::", "std::sync::poison::")) and name in ("read", "write", "lock", "try_read", "try_write", "try_lock"):
        mode = "r" if "read" in name else "w"
        s1, s2 = st.copy(), st.copy()
        g = acquire(I, s1, a0, mode, sn)
        s2.emit("poison", a0, mode, sn)
        return [Out(s1, "ret", OK(g)), Out(s2, "ret", ERR(mk("poisonerr", a0, mode)))]
    if path.startswith(("std::sync::RwLock::", "std::sync::Mutex::", "tokio::sync::RwLock::", "tokio::sync::Mutex::")) and name == "new":
        st = st.copy()
        return ret(st, mk("newlock", args[0], count(st, "newlock")))
    if path.endswith("PoisonError::into_inner") or "PoisonError" in path and name in ("into_inner", "get_ref", "get_mut"):
        if a0.op == "poisonerr":
            st = st.copy()
            return ret(st, acquire(I, st, a0.a[0], a0.a[1], sn))
    if path.startswith(("tokio::sync::RwLock::", "tokio::sync::Mutex::")) and name in ("read", "write", "lock"):
        return ret(st.copy(), mk("fut", path.replace("tokio::sync::", "tokio::"), (a0,)))
    if path.startswith("std::sync::atomic::"):
        if name == "new":
            return ret(st.copy(), mk("newatomic", args[0]))
        if name == "load":
            st = st.copy()
            return ret(st, mk("app", "load", (a0,))) if dty != "bool" else ret(st, isin(mk("app", "load", (a0,)), (1,)))
        st = st.copy()
        k = count(st, ("atomic", a0))
        st.emit("atomic", name, a0, tuple(I.resolve(st, a) for a in args[1:]))
        if name == "store":
            return ret(st, UNIT)
        return ret(st, mk("app", name, (a0, INT(k)) + tuple(I.resolve(st, a) for a in args[1:-1])))
    if path.startswith("tokio::sync::mpsc::") or path.startswith("tokio::sync::broadcast::") or path.startswith("tokio::sync::watch") or path.startswith("tokio::sync::Notify") or path.startswith("tokio::sync::oneshot"):
        st = st.copy()
        if name in ("unbounded_channel", "channel"):
            k = count(st, "chan")
            ch = mk("chan", sn, k)
            return ret(st, mk("tup", (mk("chtx", ch), mk("chrx", ch))))
        if name in ("send", "try_send", "notify_one", "notify_waiters", "blocking_send", "send_replace"):
            ra = tuple(I.resolve(st, a) for a in args[1:])
            if "Future" in dty or name == "send" and "mpsc::Sender" in path:
                return ret(st, mk("fut", "mpsc::send", (I.resolve(st, args[0]),) + ra))
            st.emit("send", I.resolve(st, args[0]), ra)
            return ret(st, opaque(I, st, "send", args))
        if name in ("recv", "recv_many", "changed", "notified"):
            return ret(st, mk("fut", "recv", (I.resolve(st, args[0]),)))
        if name in ("try_recv",):
            st.emit("try_recv", I.resolve(st, args[0]))
            return ret(st, opaque(I, st, "try_recv", [args[0]]))
        return None
    if path.startswith("tokio::sync::Semaphore"):
        if name == "new":
            return ret(st.copy(), mk("sem", I.resolve(st, args[0])))
        if name in ("acquire", "acquire_owned"):
            return ret(st.copy(), mk("fut", "tokio::Semaphore::acquire", (I.resolve(st, args[0]),)))
    if path.startswith("tokio::sync::OnceCell::") or path.startswith("std::sync::OnceLock::"):
        st = st.copy()
        if name in ("const_new", "new"):
            return ret(st, mk("newcell"))
        if name == "set":
            v = I.resolve(st, args[1])
            st.emit("once_set", a0, v)
            return fork_ok(I, st, mk("ok", "once_set", a0), UNIT, mk("setfail", a0, v))
        if name == "get":
            return fork_opt(I, st, mk("ok", "once_get", a0), mk("app", "once", (a0,)))
        if name in ("initialized",):
            return ret(st, isin(mk("ok", "once_get", a0), (1,)))
    if path.startswith("tokio_util::sync::"):
        st = st.copy()
        if name in ("new", "default"):
            return ret(st, mk("token", sn, count(st, "token")))
        if name == "child_token":
            return ret(st, mk("childtoken", a0))
        if name in ("cancelled", "cancelled_owned"):
            return ret(st, mk("fut", "cancelled", (a0,)))
        if name == "cancel":
            st.emit("cancel", a0)
            return ret(st, UNIT)
        if name == "is_cancelled":
            return ret(st, isin(mk("app", "is_cancelled", (a0, INT(st.epoch))), (1,)))
        if name == "drop_guard":
            return ret(st, mk("cancelguard", a0))
        if name in ("disarm",):
            return ret(st, a0.a[0] if a0.op == "cancelguard" else a0)
        if name == "run_until_cancelled":
            return ret(st, mk("fut", "run_until_cancelled", (a0, args[1])))
    if path in ("tokio::spawn", "tokio::task::spawn", "tokio::task::spawn_local") or path.endswith("Handle::spawn") or path.endswith("Runtime::spawn"):
        f = args[-1]
        return spawn(I, st, "spawn", lambda s: run_future(I, s, f, site), site)
    if path in ("tokio::task::spawn_blocking",) or path.endswith("Handle::spawn_blocking"):
        f = args[-1]
        return spawn(I, st, "spawn_blocking", lambda s: I.call_value(s, f, [], site), site)
    if path in ("std::thread::spawn",):
        return spawn(I, st, "thread", lambda s: I.call_value(s, args[0], [], site), site)
    if path in ("tokio::task::block_in_place",):
        st = st.copy()
        st.emit("block_in_place")
        return I.call_value(st, args[0], [], site)
    if path.endswith("JoinSet::spawn") or path.endswith("TaskTracker::spawn"):
        f = args[1]
        outs = spawn(I, st, "joinset", lambda s: run_future(I, s, f, site), site)
        return outs
    if "JoinHandle" in path or "AbortHandle" in path:
        st = st.copy()
        if name == "abort":
            st.emit("abort", I.resolve(st, args[0]))
            return ret(st, UNIT)
        if name == "is_finished":
            return ret(st, isin(opaque(I, st, "is_finished", args), (1,)))
        if name == "abort_handle":
            return ret(st, a0)
    if path in ("tokio::time::timeout", "tokio::time::timeout_at"):
        return ret(st.copy(), mk("timeoutf", I.resolve(st, args[0]), args[1]))
    if path in ("tokio::time::sleep", "tokio::time::sleep_until"):
        return ret(st.copy(), mk("fut", name, (I.resolve(st, args[0]),)))
    if path in ("tokio::task::yield_now",):
        return ret(st.copy(), mk("fut", "yield_now", ()))
    if path == "tokio::macros::support::thread_rng_n":
        n = args[0].a[0] if args[0].op == "int" else 1
        return [Out(st.copy(), "ret", INT(i)) for i in range(n)]
    if path.startswith("tokio::macros::support::poll_budget"):
        return ret(st.copy(), ready(UNIT))
    if path.startswith("tokio::macros::support::"):
        return ret(st.copy(), UNIT)
    if path.endswith("executor::block_on") or path.endswith("Handle::block_on") or path.endswith("Runtime::block_on"):
        st = st.copy()
        st.emit("block_on")
        return run_future(I, st, args[-1], site)
    if path.startswith("tokio::runtime::Handle::"):
        return ret(st.copy(), mk("rthandle"))
    # ---- futures streams
    if tr in ("futures::StreamExt", "futures_util::StreamExt", "tokio_stream::StreamExt", "futures::TryStreamExt") or path.startswith(("futures::StreamExt::", "futures::stream::StreamExt::")):
        st = st.copy()
        sv = stream_of(I, st, args[0])
        if name in ("take_until", "map", "then", "filter_map", "filter", "inspect", "buffer_unordered", "buffered", "take", "skip", "fuse", "boxed", "enumerate", "chunks", "take_while"):
            return ret(st, mk("strm", sv.a[0], sv.a[1] + (mk("stage", name, args[1] if len(args) > 1 else UNIT),)))
        if name == "for_each_concurrent":
            return ret(st, mk("fec", sv, args[1], args[2], name))
        if name == "for_each":
            return ret(st, mk("fec", sv, OPT(INT(1)), args[1], name))
        if name == "next":
            return ret(st, mk("snext", args[0]))
        if name in ("collect",):
            return ret(st, mk("scollect", sv))
    if path in ("futures::stream::iter", "tokio_stream::iter"):
        it = mk_iter(I, st, args[0])
        return ret(st.copy(), mk("strm", it, ()))
    if path.endswith("future::join_all") or path.endswith("future::try_join_all"):
        it = mk_iter(I, st, args[0])
        if name == "join_all":
            return ret(st.copy(), mk("joinall", val(I, st, it)))
    if path.endswith("future::ready"):
        return ret(st.copy(), mk("ready", args[0]))
    if path.endswith("future::pending"):
        return ret(st.copy(), mk("pending"))
    if tr and tr.endswith("FutureExt"):
        if name in ("map",):
            return ret(st.copy(), mk("fmap", args[0], args[1]))
        if name == "catch_unwind":
            return ret(st.copy(), mk("catch", args[0]))
        if name in ("fuse", "boxed", "boxed_local"):
            return ret(st.copy(), args[0])
    if "AssertUnwindSafe" in path:
        return ret(st.copy(), args[0])
    if path == "std::panic::catch_unwind":
        st = st.copy()
        outs = []
        s2 = st.copy()
        for o in I.call_value(st, args[0], [], site):
            if o.kind == "ret":
                outs.append(Out(o.st, "ret", OK(o.val)))
            elif o.kind != "panic":
                outs.append(o)
        s2.emit("caught")
        outs.append(Out(s2, "ret", ERR(mk("panicval", STR("catch_unwind")))))
        return outs
    if path.startswith("futures") and path.endswith("stream::unfold"):
        return ret(st.copy(), mk("gen", mk("fut", "unfold", (args[0], args[1]))))
    # ---- async-stream
    if "async_stream" in path:
        st = st.copy()
        if name == "pair":
            return ret(st, mk("tup", (mk("ytx"), mk("yrx"))))
        if name == "send":
            return ret(st, mk("fut", "yield", (args[1],)))
        if name == "new":
            return ret(st, mk("gen", args[1]))
    if path == "cron::Schedule::upcoming":
        return ret(st.copy(), mk("upcoming", I.resolve(st, args[0]), I.resolve(st, args[1])))
    if path.startswith("cron::Schedule::after"):
        zone = mk("tyarg", str((c.get("ga") or ["?"])[-1]))
        return ret(st.copy(), mk("upcoming_after", I.resolve(st, args[0]), I.resolve(st, args[1]), zone))
    if "ScheduleIterator" in path and name == "next" and args[0].op == "mref":
        v = val(I, st, args[0])
        st = st.copy()
        i = INT(count(st, ("cronnext", v)))
        s2 = st.copy()
        tk = mk("app", "tick", (v, INT(st.epoch), i))
        st.emit("cron_next", v, tk)
        s2.emit("cron_end", v)
        return [Out(st, "ret", OPT(tk)), Out(s2, "ret", OPT())]
    return None


def fut_yield(I, st, v, site):
    x = I.resolve(st, v.a[1][0])
    st.emit("yield", x)
    tick(st)
    return ret(st, UNIT)


FUTS["yield"] = fut_yield


def fut_unfold(I, st, v, site):
    """all items of an unfolded stream: one round of its step, starting from a state each round leaves as it was"""
    s0 = st.copy()
    state = I.resolve(s0, v.a[1][0])
    base_ev, s0.ev = s0.ev, None
    trans, res = [], []
    for o in I.call_value(s0.copy(), v.a[1][1], [v.a[1][0]], site):
        for oo in run_future(I, o.st, o.val, site) if o.kind == "ret" else [o]:
            r = I.resolve(oo.st, oo.val) if oo.kind == "ret" else None
            if r is not None and r.op == "adt" and r.a[1] == "Some":
                item = fld(dc(r, "Some"), "0")
                nxt = I.resolve(oo.st, fld(item, "1"))
                if nxt is not state:
                    return ret(st.copy(), opaque(I, st, "unfold", (state,)))
                oo.st.emit("yield", I.resolve(oo.st, fld(item, "0")))
                nf = tuple(sorted(((k, x) for k, x in oo.st.facts.items() if st.facts.get(k) != x), key=lambda kv: kv[0].uid))
                trans.append(mk("tr_", "back", nf, tuple(evlist(oo.st.ev)), (), (), 1))
            elif oo.kind == "ret" and not (r.op == "adt" and r.a[1] == "None"):
                return ret(st.copy(), opaque(I, st, "unfold", (state,)))
            else:
                res.append(oo)
    trans = tuple(sorted(set(trans), key=lambda t: t.uid))
    lid = "unfold@" + v.a[1][1].a[0] if v.a[1][1].op in ("clo", "cor") else "unfold"
    for o in res:
        tail = evlist(o.st.ev)
        o.st.ev = base_ev
        o.st.emit("loop", lid, trans, ())
        for e in tail:
            o.st.ev = mk("ev", o.st.ev, e)
    if not res:
        s = s0.copy()
        s.ev = base_ev
        s.emit("loop", lid, trans, ())
        res.append(Out(s, "div", None, lid))
    return res


FUTS["unfold"] = fut_unfold


def fut_ruc(I, st, v, site):
    tok, f = v.a[1]
    st.emit("select", (mk("fut", "cancelled", (tok,)), I.resolve(st, f)))
    s2 = st.copy()
    outs = []
    for o in run_future(I, st, f, site):
        if o.kind == "ret":
            outs.append(Out(o.st, "ret", OPT(o.val)))
        else:
            outs.append(o)
    s2.emit("await", "cancelled", (tok,), UNIT)
    tick(s2)
    outs.append(Out(s2, "ret", OPT()))
    return outs


FUTS["run_until_cancelled"] = fut_ruc


def h_local_conv(I, st, c, path, tr, name, args, site, dty):
    return None


HANDLERS = [h_num, h_misc, h_conc, h_coll]
