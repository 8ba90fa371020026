"""Finite truth tables over branch atoms: canonical forms and equivalence, no solver."""
from itertools import product

from .terms import *

LIMIT = 200000


def _consistent(asg):
    groups = {}
    for a, s in asg:
        if a.op == "sgn":
            c, d = lparts(a.a[0])
            k = tuple(sorted(d.items(), key=lambda kv: kv[0].uid))
            groups.setdefault(k, []).append((-c, s))
    for cons in groups.values():
        if len(cons) < 2:
            continue
        pts = sorted({p for p, _ in cons})
        cand = [pts[0] - 1]
        for p in pts:
            cand += [p, p + 0.5]
        if not any(all(((v > p) - (v < p)) in s for p, s in cons) for v in cand):
            return False
    return True


def cells(atom, sets):
    """partition of the atom's universe induced by the sets used"""
    u = universe(atom)
    if u is None:
        fin = set()
        for s in sets:
            fin |= s[1] if isinstance(s, tuple) else s
        cs = {}
        for x in fin:
            sig = tuple((x not in s[1]) if isinstance(s, tuple) else (x in s) for s in sets)
            cs.setdefault(sig, set()).add(x)
        out = [frozenset(v) for v in cs.values()]
        out.append(("~", frozenset(fin)))
        return out
    cs = {}
    for x in u:
        sig = tuple((x not in s[1]) if isinstance(s, tuple) else (x in s) for s in sets)
        cs.setdefault(sig, set()).add(x)
    return [frozenset(v) for v in sorted(cs.values(), key=lambda v: sorted(map(str, v)))]


def sub(cell, s):
    if isinstance(s, tuple):
        if isinstance(cell, tuple):
            return True
        return not (cell & s[1])
    if isinstance(cell, tuple):
        return False
    return cell <= s


def table(dnfs):
    """-> atoms, list of cell-tuples (consistent assignments), list of bool vectors per dnf"""
    used = {}
    for dnf in dnfs:
        for conj in dnf:
            for a, s in conj:
                used.setdefault(a, set()).add(s)
    atoms = sorted(used, key=lambda a: a.uid)
    cl = [cells(a, sorted(used[a], key=str)) for a in atoms]
    n = 1
    for c in cl:
        n *= max(1, len(c))
        if n > LIMIT:
            return None
    rows = []
    for combo in product(*cl):
        asg = tuple(zip(atoms, combo))
        if not _consistent(asg):
            continue
        d = dict(asg)
        vec = []
        for dnf in dnfs:
            vec.append(any(all(sub(d[a], s) for a, s in conj) for conj in dnf))
        rows.append((asg, vec))
    return atoms, rows


def equiv(f, g, extra=None):
    """-> (True, None) | (False, witness assignment) | (None, None) if too big.  extra: assumption dnf"""
    t = table(align([f, g] + ([extra] if extra is not None else [])))
    if t is None:
        return None, None
    for asg, vec in t[1]:
        if extra is not None and not vec[2]:
            continue
        if vec[0] != vec[1] and lin_feasible(asg):
            return False, asg
    return True, None


def implies(f, g):
    t = table(align([f, g]))
    if t is None:
        return None, None
    for asg, vec in t[1]:
        if vec[0] and not vec[1] and lin_feasible(asg):
            return False, asg
    return True, None


_alpha = {}


def alpha(x):
    """rename bound variables canonically (by binder height), so that alpha-equal terms are identical"""
    if isinstance(x, T):
        r = _alpha.get(x)
        if r is not None:
            return r
        if not x.a:
            return x
        a2 = tuple(alpha(y) for y in x.a)
        b = BINDER.get(x.op)
        if b is not None and len(x.a) > b and isinstance(x.a[b], T) and x.a[b].op == "bv":
            bv = x.a[b]
            body = tuple(y for i, y in enumerate(a2) if i != b)
            h = max([v.a[0] - 1000 for v in free_bvs(body) if isinstance(v.a[0], int) and v.a[0] >= 1000] + [-1]) + 1
            nb = mk("bv", 1000 + h)
            r = mk(x.op, *[nb if i == b else subst(y, {bv: nb}) for i, y in enumerate(a2)])
            if r.op == "any":
                r = swap_any(r)
        else:
            r = x if a2 == x.a else rebuild(x.op, a2)
        _alpha[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(alpha(y) for y in x)
    if isinstance(x, frozenset):
        return frozenset(alpha(y) for y in x)
    return x


def _skey(t):
    import re
    return re.sub(r"bv\(\w+\)", "bv", repr(t))


def swap_any(r):
    """(exists x in A)(exists y in B) p with independent A and B: a canonical order of the two"""
    A, x, dnf = r.a
    if len(dnf) != 1:
        return r
    c = next(iter(dnf))
    if len(c) != 1:
        return r
    (q, s), = c
    if q.op != "any" or s != frozenset((1,)):
        return r
    B, y, d2 = q.a
    if x in free_bvs(B) or _skey(B) >= _skey(A):
        return r
    X, Y = mk("bv", 5000), mk("bv", 5001)
    body = subst(d2, {x: X, y: Y})
    return alpha(mk("any", B, Y, frozenset((frozenset(((mk("any", A, X, body), frozenset((1,))),)),))))


def align(dnfs):
    """bring several DNFs to common atoms: bound variables renamed canonically, `any` atoms over the same
    collection with equivalent bodies identified"""
    ds = [[frozenset(alpha(c)) for c in d] for d in dnfs]
    anys = []
    for d in ds:
        for c in d:
            for a, s in c:
                if a.op == "any" and a not in anys:
                    anys.append(a)
    if len(anys) < 2:
        return ds
    anys.sort(key=lambda a: a.uid)
    m = {}
    for i, a in enumerate(anys):
        for b in anys[:i]:
            if b in m or b.a[0] is not a.a[0] or b.a[2] == a.a[2]:
                continue
            db = a.a[2] if b.a[1] is a.a[1] else subst(b.a[2], {b.a[1]: a.a[1]})
            da = a.a[2]
            if b.a[1] is not a.a[1]:
                db = subst(b.a[2], {b.a[1]: a.a[1]})
            else:
                db = b.a[2]
            if isinstance(da, frozenset) and isinstance(db, frozenset) and equiv(da, db)[0]:
                m[a] = b
                break
    if not m:
        return ds
    return [[frozenset((m.get(a, a), s) for a, s in c) for c in d] for d in ds]


def lin_feasible(asg):
    """is the assignment's set of linear sign constraints satisfiable over the rationals?
    (Fourier-Motzkin elimination; True when it cannot tell)"""
    from fractions import Fraction
    ne = [i for i, (a, s) in enumerate(asg) if a.op == "sgn" and not isinstance(s, tuple) and frozenset(s) == frozenset((-1, 1))]
    if ne and len(ne) <= 4:
        asg = list(asg)
        i = ne[0]
        return any(lin_feasible(asg[:i] + [(asg[i][0], frozenset((k,)))] + asg[i + 1:]) for k in (-1, 1))
    cons = []  # (coeffs dict, const, strict): sum + const >(=) 0
    for a, s in asg:
        if a.op != "sgn" or isinstance(s, tuple):
            continue
        c, d = lparts(a.a[0])
        s = frozenset(s)
        neg_ = {k: -v for k, v in d.items()}
        if s == frozenset((1,)):
            cons.append((d, c, True))
        elif s == frozenset((-1,)):
            cons.append((neg_, -c, True))
        elif s == frozenset((0, 1)):
            cons.append((d, c, False))
        elif s == frozenset((0, -1)):
            cons.append((neg_, -c, False))
        elif s == frozenset((0,)):
            cons.append((d, c, False))
            cons.append((neg_, -c, False))
    cons = [({k: Fraction(v) for k, v in d.items()}, Fraction(c), st) for d, c, st in cons]
    while True:
        vs = {}
        for d, c, st in cons:
            for k in d:
                vs.setdefault(k, [0, 0])[0 if d[k] > 0 else 1] += 1
        if not vs:
            break
        v = min(vs, key=lambda k: (vs[k][0] * vs[k][1], k.uid))
        pos = [x for x in cons if x[0].get(v, 0) > 0]
        ng = [x for x in cons if x[0].get(v, 0) < 0]
        rest = [x for x in cons if not x[0].get(v)]
        if len(pos) * len(ng) > 400:
            return True
        for pd, pc, ps in pos:
            for nd, nc, ns in ng:
                x, y = pd[v], -nd[v]
                d = {}
                for k in set(pd) | set(nd):
                    w = pd.get(k, 0) * y + nd.get(k, 0) * x
                    if w and k is not v:
                        d[k] = w
                rest.append((d, pc * y + nc * x, ps or ns))
        cons = rest
    return all((c > 0 if st else c >= 0) for d, c, st in cons)


_memo = {}


def canon(dnf):
    """canonical hashable form of a DNF"""
    dnf = frozenset(frozenset(c) for c in dnf)
    r = _memo.get(dnf)
    if r is not None:
        return r
    t = table([dnf])
    if t is None:
        r = dnf
    else:
        atoms, rows = t
        sat = [tuple(x[1] for x in asg) for asg, vec in rows if vec[0]]
        allr = {tuple(x[1] for x in asg): vec[0] for asg, vec in rows}
        # drop irrelevant atoms
        keep = list(range(len(atoms)))
        changed = True
        while changed:
            changed = False
            for i in list(keep):
                rest = [j for j in keep if j != i]
                m = {}
                ok = True
                for k, v in allr.items():
                    kk = tuple(k[j] for j in rest)
                    if m.setdefault(kk, v) != v:
                        ok = False
                        break
                if ok:
                    keep = rest
                    allr = {}
                    for asg, vec in rows:
                        allr[tuple(asg[j][1] for j in keep)] = vec[0]
                    rowsk = [([asg[j] for j in keep], vec) for asg, vec in rows]
                    atoms = [atoms[j] for j in keep]
                    rows = [(tuple(a), v) for a, v in rowsk]
                    keep = list(range(len(atoms)))
                    changed = True
                    break
        r = frozenset(frozenset(zip(atoms, k)) for k, v in allr.items() if v)
    _memo[dnf] = r
    return r


def expand(dnf):
    """replace `sat` atoms by the DNF they stand for"""
    out = []
    for c in dnf:
        cur = [frozenset(x for x in c if x[0].op != "sat" or len(x[0].a) != 1)]
        for a, s in c:
            if a.op == "sat" and len(a.a) == 1:
                d = list(a.a[0]) if s == frozenset((1,)) else neg(a.a[0])
                if d is None:
                    return dnf
                cur = conj_and(cur, expand(d))
        out += cur
    return out


def neg(dnf):
    t = table([dnf])
    if t is None:
        return None
    return [frozenset(asg) for asg, vec in t[1] if not vec[0]]


def conj_or(*dnfs):
    out = []
    for d in dnfs:
        out += list(d)
    return out


def conj_and(f, g):
    out = []
    for a in f:
        for b in g:
            d = dict(a)
            ok = True
            for k, s in b:
                if k in d:
                    from .interp import setinter
                    x = setinter(d[k], s)
                    if isinstance(x, frozenset) and not x:
                        ok = False
                        break
                    d[k] = x
                else:
                    d[k] = s
            if ok:
                out.append(frozenset(d.items()))
    return out


def of_bool(b):
    """DNF of a boolean term"""
    if b.op == "int":
        return [frozenset()] if b.a[0] else []
    if b.op == "in":
        return [frozenset([(b.a[0], b.a[1])])]
    if b.op == "not":
        return neg(of_bool(b.a[0]))
    if b.op == "and":
        return conj_and(of_bool(b.a[0]), of_bool(b.a[1]))
    if b.op == "or":
        return list(of_bool(b.a[0])) + list(of_bool(b.a[1]))
    return [frozenset([(b, frozenset((1,)))])]


def show_asg(asg):
    return " & ".join(f"{show(a)}∈{show(s) if not isinstance(s, tuple) else 'other'}" for a, s in asg)
