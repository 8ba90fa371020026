"""Path-sensitive, interprocedural abstract interpretation of the extracted MIR.

For every function it computes guarded value-flow facts: which effects (events) happen, in which order,
with which provenance of every operand, under which branch conditions, and what is returned.  Loops are
taken to a fixpoint (values that change are widened to `lv` terms), calls are inlined, unknown
functions become opaque results plus an `unk` event.  Nothing is executed and no solver is involved.
"""
import sys

from .facts import norm
from .terms import *
from . import terms as TM

sys.setrecursionlimit(20000)


class Bail(Exception):
    """analysis budget exhausted"""


class St:
    __slots__ = ("mem", "facts", "ev", "cnt", "epoch", "ret")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.ev = None
        self.cnt = {}
        self.epoch = 0

    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.cnt = dict(self.cnt)
        s.epoch = self.epoch
        return s

    def emit(self, kind, *a):
        self.ev = mk("ev", self.ev, mk("e", kind, *a))

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.ev, self.epoch, frozenset(self.cnt.items()))


def evlist(ev, upto=None):
    out = []
    while ev is not None and ev is not upto:
        out.append(ev.a[1])
        ev = ev.a[0]
    out.reverse()
    return out


class Out:
    __slots__ = ("st", "kind", "val", "info")

    def __init__(self, st, kind, val=None, info=None):
        self.st = st
        self.kind = kind
        self.val = val
        self.info = info


TRACING = ("tracing::", "tracing_core::", "tracing_log::", "log::", "<tracing", "<log::")


def tracing_macro(ms):
    return any(m.startswith("tracing::") or m.startswith("tracing_core::") or m.startswith("log::") for m in ms)


INTBITS = {"i8": (8, 1), "i16": (16, 1), "i32": (32, 1), "i64": (64, 1), "i128": (128, 1), "isize": (64, 1),
           "u8": (8, 0), "u16": (16, 0), "u32": (32, 0), "u64": (64, 0), "u128": (128, 0), "usize": (64, 0)}


def int_range(ty):
    b, s = INTBITS[ty]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


class Interp:
    def __init__(self, facts, budget=400000):
        from . import models
        self.F = facts
        self.M = models
        self.stack = []
        self.steps = 0
        self.budget = budget
        self.bdepth = 0
        self.callees = []
        self.callee_ix = {}
        self.visited = set()
        self.unknown = {}
        self.sites = 0
        self.opaque_traits = set()

    # ---- memory --------------------------------------------------------------------------------
    def default(self, root):
        if root.op == "E":
            return mk("elem", root.a[0], root.a[1])
        if root.op == "D":
            return mk("data", root.a[0], root.a[1])
        if root.op == "S":
            return root.a[0]
        if root.op == "L":
            return mk("uninit")
        return mk("sym", root)

    def rd(self, st, root, path):
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
        for k in path:
            v = self.rkey(st, v, k)
        return v

    def rkey(self, st, v, k):
        if v.op == "mref":
            v = self.rd(st, v.a[0], v.a[1])
        if isinstance(k, tuple):
            return self.M.index_read(self, st, v, k[1])
        if k.startswith("as "):
            if v.op == "moved":
                return v
            return dc(v, k[3:])
        return fld(v, k)

    def wkey(self, v, path, new):
        """functional update of value v at path"""
        if not path:
            return new
        k, rest = path[0], path[1:]
        if isinstance(k, tuple):
            if v.op == "arr" and k[1].op == "int" and 0 <= k[1].a[0] < len(v.a[0]):
                l = list(v.a[0])
                i = k[1].a[0]
                l[i] = self.wkey(l[i], rest, new)
                return mk("arr", tuple(l))
            old = mk("elem", v, k[1])
            return mk("setix", v, k[1], self.wkey(old, rest, new))
        if v.op == "adt":
            if k.startswith("as "):
                return self.wkey(v, rest, new)
            items = list(v.a[2])
            for i, (n, x) in enumerate(items):
                if n == k:
                    items[i] = (n, self.wkey(x, rest, new))
                    return ADT(v.a[0], v.a[1], items)
            items.append((k, self.wkey(mk("fld", v, k), rest, new)))
            return ADT(v.a[0], v.a[1], items)
        if v.op in ("tup", "arr"):
            l = list(v.a[0])
            try:
                i = int(k)
                l[i] = self.wkey(l[i], rest, new)
                return mk(v.op, tuple(l))
            except (ValueError, IndexError):
                pass
        if v.op in ("clo", "cor"):
            l = list(v.a[1])
            try:
                i = int(k)
                l[i] = self.wkey(l[i], rest, new)
                return mk(v.op, v.a[0], tuple(l))
            except (ValueError, IndexError):
                pass
        if v.op in ("uninit", "moved") and k == "value":
            return self.wkey(v, rest, new)  # MaybeUninit/ManuallyDrop wrappers
        if v.op == "tr":
            return v
        sub = self.rkey(None, v, k) if not (v.op == "mref") else mk("fld", v, k)
        if v.op == "moved":
            sub = MOVED
        nv = self.wkey(sub, rest, new)
        if v.op == "ov":
            base, items = v.a[0], dict(v.a[1])
        else:
            base, items = v, {}
        items[k] = nv
        return mk("ov", base, tuple(sorted(items.items())))

    def wr(self, st, root, path, new):
        v = st.mem.get(root)
        if path:
            if v is None:
                v = self.default(root)
            # writing through a reference stored on the way
            cur = v
            for i, k in enumerate(path):
                if cur.op == "mref":
                    return self.wr(st, cur.a[0], cur.a[1] + tuple(path[i:]), new)
                if isinstance(k, tuple) or cur.op in ("uninit", "moved", "tr"):
                    break
                cur = self.rkey(st, cur, k)
            new = self.wkey(v, tuple(path), new)
        st.mem[root] = new

    def place(self, st, d, p):
        root = mk("L", d, p[0])
        path = ()
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.rd(st, root, path)
                if v.op == "mref":
                    root, path = v.a[0], v.a[1]
            elif k == "f":
                if len(e) > 3 and e[3]:
                    continue  # transparent newtype
                v = None
                path = path + (e[2],)
            elif k == "d":
                path = path + ("as " + e[2],)
            elif k == "i":
                path = path + (("ix", self.rd(st, mk("L", d, e[1]), ())),)
            elif k == "c":
                path = path + (("ix", INT(e[1]) if not e[2] else mk("fromend", e[1])),)
            else:
                path = path + (("ix", mk("slice", str(e))),)
        return root, path

    def readp(self, st, d, p):
        r, path = self.place(st, d, p)
        return self.rd(st, r, path)

    def mref(self, st, root, path):
        v = self.rd(st, root, path)
        if v.op == "mref":
            return v
        return mk("mref", root, path)

    def resolve(self, st, v, depth=0):
        """replace references by what they point to"""
        if v.op == "mref":
            if depth > 20:
                return v
            return self.resolve(st, self.rd(st, v.a[0], v.a[1]), depth + 1)
        if not v.a:
            return v
        if not contains(v, lambda x: x.op == "mref"):
            return v
        m = {}
        for x in subterms(v):
            if x.op == "mref":
                m[x] = self.resolve(st, x, depth + 1)
        return subst(v, m)

    # ---- conditions ------------------------------------------------------------------------------
    def add_fact(self, st, atom, s):
        """restrict atom to s in a copy of st; None when contradictory"""
        u = st.facts.get(atom)
        if u is None:
            u = universe(atom)
        if u is None:
            if isinstance(s, tuple):  # ('~', excluded)
                new = s
            else:
                new = s
        else:
            new = setinter(u, s)
        if isinstance(new, frozenset) and not new:
            return None
        if st.facts.get(atom) == new:
            return st
        n = st.copy()
        n.facts[atom] = new
        if atom.op == "sgn" and not sgn_consistent(n.facts, atom):
            return None
        return n

    def branch(self, st, b):
        """-> [(state, bool)]"""
        if b.op == "int":
            return [(st, bool(b.a[0]))]
        if b.op == "mref":
            return self.branch(st, self.rd(st, b.a[0], b.a[1]))
        if has_tr(b):
            return [(st, True), (st.copy(), False)]
        if b.op == "not":
            return [(s, not v) for s, v in self.branch(st, b.a[0])]
        if b.op == "and":
            out = []
            for s, v in self.branch(st, b.a[0]):
                out += self.branch(s, b.a[1]) if v else [(s, False)]
            return out
        if b.op == "or":
            out = []
            for s, v in self.branch(st, b.a[0]):
                out += [(s, True)] if v else self.branch(s, b.a[1])
            return out
        if b.op == "beq":
            out = []
            for s, v in self.branch(st, b.a[0]):
                for s2, w in self.branch(s, b.a[1]):
                    out.append((s2, v == w))
            return out
        if b.op == "in":
            atom, s = b.a
        else:
            atom, s = b, frozenset((1,))
        cur = st.facts.get(atom)
        if cur is None:
            cur = universe(atom)
        out = []
        t = self.add_fact(st, atom, s)
        if t is not None:
            out.append((t, True))
        f = self.add_fact(st, atom, setminus(cur, s))
        if f is not None:
            out.append((f, False))
        return out

    # ---- functions -------------------------------------------------------------------------------
    def callee_id(self, c):
        k = id(c)
        i = self.callee_ix.get(k)
        if i is None:
            i = len(self.callees)
            self.callees.append(c)
            self.callee_ix[k] = i
        return i

    def run_fn(self, st, key, args):
        """inline the body `key`; -> [Out]"""
        b = self.F.body(key)
        if b is None:
            raise KeyError(key)
        n = self.stack.count(key)
        if n >= 1:
            # structural recursion over a literal value is unfolded, over an unknown one summarised
            def literal(x):
                return x.op == "adt" and ADTS.get(x.a[0], {}).get("enum") or x.op == "arr" and all(literal(y) for y in x.a[0])
            if n > 6 or not any(literal(self.resolve(st, a)) for a in args):
                return self.recursion(st, b, args)
        if len(self.stack) > 60:
            raise Bail("call depth")
        self.visited.add(key)
        d = len(self.stack) + 1
        self.stack.append(key)
        try:
            st = st.copy()
            for i, a in enumerate(args):
                st.mem[mk("L", d, i + 1)] = a
            outs = self.region(b, d, 0, [st], None)
        finally:
            self.stack.pop()
        res = []
        seen = {}
        for target, s, kind, info in outs:
            if kind == "ret":
                v = s.mem.get(mk("L", d, 0), UNIT)
                if v.op == "mref" and v.a[0].op == "L" and v.a[0].a[0] == d:
                    v = self.rd(s, v.a[0], v.a[1])
                self.drop_frame(s, d)
                k = (s.key(), v)
                if k in seen:
                    continue
                seen[k] = 1
                res.append(Out(s, "ret", v))
            else:
                self.drop_frame(s, d)
                res.append(Out(s, kind, None, info))
        return res

    def drop_frame(self, s, d):
        for r in [r for r in s.mem if r.op == "L" and r.a[0] >= d]:
            del s.mem[r]

    def recursion(self, st, b, args):
        st = st.copy()
        rargs = tuple(self.resolve(st, a) for a in args)
        v = mk("rec", b.npath, rargs)
        for a in args:
            if a.op == "mref":
                old = self.rd(st, a.a[0], a.a[1])
                self.wr(st, a.a[0], a.a[1], self.M.rec_update(self, st, old, b, rargs))
        return [Out(st, "ret", v)]

    def region(self, b, d, start, states, loop):
        """run from `start`; loop = (head, blocks) restricts the region. -> [(target, st, kind, info)]"""
        work = {}
        outs = []

        def push(t, s):
            if loop is not None:
                if t == loop[0]:
                    outs.append((t, s, "back", None))
                    return
                if t not in loop[1]:
                    outs.append((t, s, "exit", None))
                    return
            s = self.prune(b, d, t, s)
            work.setdefault(t, {}).setdefault(s.key(), s)

        first = True
        for s in states:
            s = self.prune(b, d, start, s)
            work.setdefault(start, {}).setdefault(s.key(), s)
        while work:
            t = min(work, key=lambda x: b.rpo[x])
            ss = list(work.pop(t).values())
            for s in ss:
                self.steps += 1
                if self.steps > self.budget:
                    raise Bail("steps")
                if t in b.loops and not (loop is not None and t == loop[0]):
                    for tt, s2, kind, info in self.solve_loop(b, d, t, s):
                        if kind == "exit":
                            push(tt, s2)
                        else:
                            outs.append((tt, s2, kind, info))
                else:
                    for tt, s2, kind, info in self.block(b, d, t, s):
                        if kind == "goto":
                            push(tt, s2)
                        else:
                            outs.append((tt, s2, kind, info))
        return outs

    def prune(self, b, d, t, s):
        live = b.live[t]
        dead = [r for r in s.mem if r.op == "L" and r.a[0] == d and r.a[1] not in live and r.a[1] not in b.keep]
        if dead:
            s = s.copy()
            for r in dead:
                del s.mem[r]
        return s

    # ---- loops -----------------------------------------------------------------------------------
    def solve_loop(self, b, d, h, st):
        blocks = b.loops[h]
        lid = f"{b.npath}#{h}"
        base_ev = st.ev
        # concrete iteration over literal collections: unroll
        if any(v.op == "it" and v.a[0].op == "arr" for r, v in st.mem.items() if r.op == "L" and r.a[0] == d) or any(
            v.op == "adt" and v.a[0].startswith("std::ops::Range") and all(x.op == "int" for _, x in v.a[2])
            for r, v in st.mem.items() if r.op == "L" and r.a[0] == d
        ):
            res = []
            cur = [st]
            for _ in range(40):
                nxt = []
                for s in cur:
                    for o in self.region(b, d, h, [s], (h, blocks)):
                        if o[2] == "back":
                            nxt.append(o[1])
                        else:
                            res.append(o)
                cur = nxt
                if not cur:
                    return res
            # fall through to the general treatment
        W = {}
        for rnd in range(8):
            s0 = st.copy()
            for (root, path), v in W.items():
                self.wr(s0, root, path, v)
            s0.ev = None
            outs = self.region(b, d, h, [s0], (h, blocks))
            backs = [o for o in outs if o[2] == "back"]
            if not backs:
                for o in outs:
                    o[1].ev = evcat(base_ev, o[1].ev)
                return outs
            changed = False
            old_nx = self.cur_tags(st)
            for _, s, _, _ in backs:
                ren = self.loop_rename(s, lid, old_nx)
                for root in list(s0.mem):
                    if root not in s.mem:
                        continue
                    nv = s.mem[root]
                    if ren:
                        nv = subst(nv, ren)
                    ov = s0.mem[root]
                    if nv is ov:
                        continue
                    if root.op == "L" and (root.a[0] < d or root.a[0] == d and root.a[1] not in b.live[h] and root.a[1] not in b.keep):
                        if root.a[0] == d:
                            continue
                    for path, a, c in diff(ov, nv):
                        w = self.widen(lid, root, path, a, c)
                        if W.get((root, path)) is not w:
                            W[(root, path)] = w
                            changed = True
                for root in s.mem:
                    if root.op == "E" and root.a[1] in ren:
                        continue  # the element of this iteration: what is done to it is recorded per transition
                    if root not in s0.mem and root.op in ("D", "E", "H", "S"):
                        W.setdefault((root, ()), mk("lv", lid, root, ()))
            if not changed:
                break
        else:
            pass
        epoch_moves = any(o[1].epoch != s0.epoch for o in backs)
        if epoch_moves:
            # the loop waits: later instants are distinct per iteration
            pass
        trans = []
        for o in outs:
            if o[2] == "back":
                nf = tuple(sorted(((k, v) for k, v in o[1].facts.items() if st.facts.get(k) != v), key=lambda kv: kv[0].uid))
                upd = []
                for (root, path), w in W.items():
                    nv = self.rd(o[1], root, path)
                    if nv is not w:
                        if nv.op == "push" and nv.a[1].op == "mref" and nv.a[1].a[0].op != "E":
                            nv = mk("push", nv.a[0], self.resolve(o[1], nv.a[1]))
                        upd.append((w, nv))
                ren = self.loop_rename(o[1], lid, old_nx)
                ew = tuple(sorted(((r, self.resolve(o[1], v)) for r, v in o[1].mem.items() if r.op == "E" and r.a[1] in ren and v is not mk("elem", r.a[0], r.a[1])), key=lambda z: z[0].uid))
                trans.append(mk("tr_", "back", nf, tuple(evlist(o[1].ev)), tuple(sorted(upd, key=lambda x: (x[0].uid, x[1].uid))), ew, int(o[1].epoch != s0.epoch)))
        inits = tuple(sorted(((w, self.rd(st, root, path)) for (root, path), w in W.items()), key=lambda x: x[0].uid))
        trans = tuple(sorted(set(trans), key=lambda t: t.uid))
        res = []
        n_exit = 0
        for o in outs:
            if o[2] == "back":
                continue
            n_exit += 1
            s = o[1]
            last = s.ev
            s.ev = base_ev
            alts = self.M.loop_exit(self, st, s, lid, trans, inits, evlist(last))
            if alts is None:
                res.append(o)
            else:
                res += [(o[0], q) + tuple(o[2:]) for q in alts]
        if not n_exit:
            s = s0.copy()
            s.ev = base_ev
            s.emit("loop", lid, trans, inits)
            res.append((None, s, "div", lid))
        return res

    def cur_tags(self, s):
        out = set()
        for r, v in s.mem.items():
            for x in subterms(v) | subterms(r):
                if x.op == "nx" and x.a[-1] == "cur":
                    out.add(x)
        for f in s.facts:
            for x in subterms(f):
                if x.op == "nx" and x.a[-1] == "cur":
                    out.add(x)
        return out

    def loop_rename(self, s, lid, old):
        """element picked in this iteration becomes 'a previous element' in the next one"""
        ren = {}
        for r, v in s.mem.items():
            for x in subterms(v) | subterms(r):
                if x.op == "nx" and x.a[-1] == "cur" and x not in old:
                    ren[x] = mk("nx", *(x.a[:-1] + ("prev",)))
        return ren

    def widen(self, lid, root, path, a, c):
        if a.op == "it" and c.op == "it" and a.a[0] is c.a[0] and a.a[2] == c.a[2]:
            return mk("it", a.a[0], a.a[1], a.a[2], "mid")
        return mk("lv", lid, root, path)

    # ---- blocks ----------------------------------------------------------------------------------
    def block(self, b, d, bi, st):
        bb = b.bbs[bi]
        st = st.copy()
        for s in bb["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(b, st, d, s[2])
                r, p = self.place(st, d, s[1])
                self.wr(st, r, p, v)
            elif k == "dead":
                st.mem.pop(mk("L", d, s[1]), None)
        t = bb["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st, "goto", None)]
        if k == "ret":
            return [(None, st, "ret", None)]
        if k in ("unreachable", "resume"):
            return []
        if k == "drop":
            r, p = self.place(st, d, t[1])
            v = self.rd(st, r, p)
            if t[4]:
                self.M.drop_value(self, st, v)
            self.wr(st, r, p, MOVED)
            return [(t[2], st, "goto", None)]
        if k == "assert":
            c = self.operand(b, st, d, t[1])
            out = []
            if c.op == "int":
                if bool(c.a[0]) == bool(t[2]):
                    return [(t[3], st, "goto", None)]
                return [(None, st, "panic", mk("panic", t[4].split("(")[0], self.site(b, bb)))]
            st.emit("maypanic", t[4].split("(")[0], c, self.site(b, bb))
            return [(t[3], st, "goto", None)]
        if k == "switch":
            return self.switch(b, d, bb, t, st)
        if k == "call":
            return self.call(b, d, bi, bb, t, st)
        if k == "yield":
            return []  # suspended forever: the future is never polled again
        raise Bail("terminator " + k)

    def site(self, b, bb):
        sp = bb["sp"]
        return f"{sp[0]}:{sp[1]} in {b.npath}"

    def switch(self, b, d, bb, t, st):
        v = self.operand(b, st, d, t[1])
        if v.op == "mref":
            v = self.rd(st, v.a[0], v.a[1])
        out = []
        if has_tr(v) or (len(bb["sp"]) > 2 and tracing_macro(bb["sp"][2]) and v.op not in ("int", "adt")):
            for tt in dict.fromkeys([x for _, x in t[2]] + [t[3]]):
                if tt is not None and tt >= 0 and b.bbs[tt]["t"][0] != "unreachable":
                    out.append((tt, st.copy(), "goto", None))
            return out
        ty = t[4]
        tg = [(int(x), y) for x, y in t[2]]
        if v.op == "int":
            for x, y in tg:
                if x == v.a[0] or (ty in INTBITS and (x - v.a[0]) % (1 << INTBITS[ty][0]) == 0):
                    return [(y, st, "goto", None)]
            return [(t[3], st, "goto", None)]
        if v.op in ("disc", "adt", "sgn", "neg") and not (ty == "bool"):
            path = v.a[1] if v.op == "disc" else (v.a[0] if v.op == "adt" else "std::cmp::Ordering")
            ad = ADTS.get(path)
            if ad is None and v.op in ("sgn", "neg"):
                dmap = {-1: -1, 0: 0, 1: 1, 255: -1}
            else:
                if ad is None:
                    raise Bail("unknown enum " + path)
                dmap = {}
                for vv in ad["v"]:
                    nm = vv["n"]
                    if v.op in ("sgn", "neg"):
                        nm = {"Less": -1, "Equal": 0, "Greater": 1}[nm]
                    dd = int(vv["d"])
                    dmap[dd] = nm
                    if ty in INTBITS:
                        bits = INTBITS[ty][0]
                        dmap[dd % (1 << bits)] = nm
                        if dd % (1 << bits) >= 1 << (bits - 1):
                            dmap[dd % (1 << bits) - (1 << bits)] = nm
                    if dd >= 1 << 63:
                        dmap[dd - (1 << 64)] = nm
                        dmap[dd - (1 << 128)] = nm
            done = set()
            cur = st
            for x, y in tg:
                if x not in dmap:
                    continue
                nm = dmap[x]
                done.add(nm)
                for s, r in self.branch(st, isin(v, (nm,))):
                    if r and b.bbs[y]["t"][0] != "unreachable":
                        out.append((y, s if s is not st else st.copy(), "goto", None))
            rest = set(dmap.values()) - done
            if t[3] is not None and t[3] >= 0 and rest and b.bbs[t[3]]["t"][0] != "unreachable":
                for s, r in self.branch(st, isin(v, rest)):
                    if r:
                        out.append((t[3], s if s is not st else st.copy(), "goto", None))
            return out
        if ty == "bool":
            zero = None
            for x, y in tg:
                if x == 0:
                    zero = y
            one = t[3] if zero is not None else tg[0][1]
            if zero is None:
                zero = t[3]
            for s, r in self.branch(st, v):
                y = one if r else zero
                out.append((y, s if s is not st else st.copy(), "goto", None))
            return out
        # integer switch on an opaque value
        done = []
        for x, y in tg:
            for s, r in self.branch(st, numeq(v, INT(x))):
                if r:
                    out.append((y, s if s is not st else st.copy(), "goto", None))
            done.append(x)
        if t[3] is not None and t[3] >= 0:
            s = st
            for x in done:
                if s is None:
                    break
                s2 = None
                for q, r in self.branch(s, numeq(v, INT(x))):
                    if not r:
                        s2 = q
                s = s2
            if s is not None and b.bbs[t[3]]["t"][0] != "unreachable":
                out.append((t[3], s.copy(), "goto", None))
        return out

    # ---- values ----------------------------------------------------------------------------------
    def operand(self, b, st, d, o):
        k = o[0]
        if k == "cp":
            return self.readp(st, d, o[1])
        if k == "mv":
            r, p = self.place(st, d, o[1])
            v = self.rd(st, r, p)
            if v.op not in ("int", "str", "moved") and r.op != "S":
                self.wr(st, r, p, MOVED)
            return v
        return self.const(st, o[1])

    def const(self, st, c):
        k = c["k"]
        if k == "int":
            return INT(c["v"])
        if k == "float":
            return mk("fl", str(c.get("v")))
        if k == "str":
            return STR(c["v"])
        if k == "fn":
            cc = c["c"]
            if "ctor" in cc:
                return mk("ctor", cc["ctor"][0], cc["ctor"][1])
            return mk("fnv", self.callee_id(cc), cc.get("res", cc["path"]))
        if k == "prom":
            return self.const_body(st, c["key"])
        if k == "un":
            if c.get("v") is not None:
                v = self.const(st, c["v"])
                if v.op != "opq":
                    return v
            if c.get("key"):
                v = self.const_body(st, c["key"])
                if v is not None and v.op != "opq":
                    return v
            n = norm(c["path"])
            if n.startswith(TRACING):
                return TR
            return mk("const", n, tuple(c.get("ga") or ())[:1])
        if k == "refto":
            return self.const(st, c.get("v") or c.get("c"))
        if k == "agg":
            fs = [self.const(st, f) for f in c["f"]]
            a = c["adt"]
            if a == "tuple":
                return mk("tup", tuple(fs))
            if a == "array":
                return mk("arr", tuple(fs))
            if is_newtype(a):
                return fs[0]
            v = self.M.const_adt(self, a, c["vn"], c["fn"], fs)
            if v is not None:
                return v
            return ADT(a, c["vn"], zip(c["fn"], fs))
        if k == "zst":
            ty = c.get("ty", "")
            a = ADTS.get(ty.split("<")[0])
            if a and not a["enum"] and a["v"]:
                return ADT(ty.split("<")[0], a["v"][0]["n"], ())
            return mk("zst", ty)
        if k == "static":
            n = norm(c["path"])
            if "__CALLSITE" in n or n.startswith(TRACING):
                return TR
            return mk("static", n)
        if str(c.get("ty", "")).startswith("pattern_type!(") and "Scalar(0x" in str(c.get("s", "")):
            import re
            m = re.search(r"Scalar\(0x([0-9a-f]+)\)", c["s"])
            if m:
                return INT(int(m.group(1), 16))
        return mk("opq", str(c.get("ty", "")), str(c.get("s", ""))[:60])

    def const_body(self, st, key):
        if not hasattr(self, "_cb"):
            self._cb = {}
        if key in self._cb:
            return self._cb[key]
        b = self.F.body(key)
        r = None
        if b is not None:
            if len(b.span) > 2 and tracing_macro(b.span[2]):
                r = TR
            else:
                s = St()
                sv = self.stack
                self.stack = ["const"] * (len(sv) + 1)
                try:
                    outs = [o for o in self.run_fn(s, key, []) if o.kind == "ret"]
                finally:
                    self.stack = sv
                if len(outs) == 1:
                    r = self.resolve(outs[0].st, outs[0].val)
        if r is None:
            r = mk("opq", key)
        self._cb[key] = r
        return r

    def rvalue(self, b, st, d, rv):
        k = rv[0]
        if k == "use":
            return self.operand(b, st, d, rv[1])
        if k == "ref":
            root, path = self.place(st, d, rv[2])
            if rv[1] == "s":
                return self.rd(st, root, path)
            return self.mref(st, root, path)
        if k == "agg":
            h = rv[1]
            ops = [self.operand(b, st, d, o) for o in rv[2]]
            if h[0] == "adt":
                if len(ops) == 1 and is_newtype(h[1]):
                    return ops[0]
                names = h[3] if h[3] else [str(i) for i in range(len(ops))]
                return ADT(h[1], h[2], zip(names, ops))
            if h[0] == "tuple":
                return mk("tup", tuple(ops))
            if h[0] == "array":
                return mk("arr", tuple(ops))
            if h[0] == "closure":
                return mk("clo", h[1], tuple(ops))
            if h[0] in ("coroutine", "coroutineclosure"):
                return mk("cor", h[1], tuple(ops))
            return mk("aggx", str(h), tuple(ops))
        if k == "discr":
            v = self.readp(st, d, rv[1])
            if v.op == "mref":
                v = self.rd(st, v.a[0], v.a[1])
            return mkdisc(v, rv[2] or "?")
        if k == "cast":
            v = self.operand(b, st, d, rv[2])
            return self.cast(st, rv[1], v, rv[3], rv[4])
        if k == "bin":
            a = self.operand(b, st, d, rv[2])
            c = self.operand(b, st, d, rv[3])
            return self.binop(st, rv[1], a, c, rv[4])
        if k == "un":
            v = self.operand(b, st, d, rv[2])
            if v.op == "mref":
                v = self.rd(st, v.a[0], v.a[1])
            if rv[1] == "Not":
                if v.op in ("int",) and v.a[0] not in (0, 1):
                    return APP("bitnot", v)
                return NOT(v)
            if rv[1] == "Neg":
                return lmul(v, -1)
            return APP(rv[1], v)
        if k == "repeat":
            v = self.operand(b, st, d, rv[1])
            return APP("repeat", v)
        if k == "tls":
            return mk("tls", str(rv[1:]))
        return mk("opq", "rv " + k)

    def cast(self, st, kind, v, ty, fromty):
        if v.op == "mref" and ty in INTBITS:
            v = self.rd(st, v.a[0], v.a[1])
        if ty in INTBITS:
            if fromty in INTBITS:
                lo, hi = int_range(ty)
                if v.op in ("disc", "adt"):
                    ad = ADTS.get(v.a[1] if v.op == "disc" else v.a[0])
                    if ad and all(lo <= int(w["d"]) <= hi for w in ad["v"]):
                        if v.op == "disc":
                            return v
                        return INT(next(int(w["d"]) for w in ad["v"] if w["n"] == v.a[1]))
                if v.op == "int":
                    x = v.a[0]
                    if lo <= x <= hi:
                        return v
                    bits = INTBITS[ty][0]
                    x %= 1 << bits
                    if x > hi:
                        x -= 1 << bits
                    return INT(x)
                flo, fhi = int_range(fromty)
                if lo <= flo and fhi <= hi:
                    return v
                return mk("ncast", ty, fromty, v)
            if fromty == "bool":
                return v
            if v.op in ("adt",):
                ad = ADTS.get(v.a[0])
                if ad:
                    for vv in ad["v"]:
                        if vv["n"] == v.a[1]:
                            return INT(vv["d"])
            if fromty in ("f64", "f32"):
                return mk("ncast", ty, fromty, v)
            return v
        if ty in ("f64", "f32"):
            return mk("ncast", ty, fromty, v)
        return v

    def binop(self, st, op, a, c, ty):
        if a.op == "mref":
            a = self.rd(st, a.a[0], a.a[1])
        if c.op == "mref":
            c = self.rd(st, c.a[0], c.a[1])
        if a.op == "tr" or c.op == "tr":
            return TR
        wo = op.endswith("WithOverflow")
        if wo:
            op = op[:-12]
        if op.endswith("Unchecked"):
            op = op[:-9]
        isint = ty in INTBITS
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if ty == "bool" and op in ("Eq", "Ne"):
                for x, y in ((a, c), (c, a)):
                    if x.op == "int":
                        r = y if x.a[0] else NOT(y)
                        return r if op == "Eq" else NOT(r)
                r = mk("beq", a, c)
                return r if op == "Eq" else mk("not", r)
            if a.op in ("disc", "adt", "sgn", "neg") or c.op in ("disc", "adt", "sgn", "neg"):
                r = self.disc_cmp(st, op, a, c)
                if r is not None:
                    return r
            if isint or ty in ("char",):
                return numcmp(op, a, c)
            if ty in ("f64", "f32"):
                return mk("in", mk("fcmp", op, a, c), frozenset((1,)))
            r = mkeq(a, c)
            return r if op == "Eq" else NOT(r)
        if isint:
            if op in ("Add", "Sub"):
                v = ladd(a, c) if op == "Add" else lsub(a, c)
            elif op == "Mul":
                if a.op == "int":
                    v = lmul(c, a.a[0])
                elif c.op == "int":
                    v = lmul(a, c.a[0])
                else:
                    v = APP("Mul", *sorted((a, c), key=lambda t: t.uid))
            elif a.op == "int" and c.op == "int" and op in ("Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr") and not (op in ("Div", "Rem") and c.a[0] == 0):
                x, y = a.a[0], c.a[0]
                v = INT({"Div": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "Rem": lambda: abs(x) % abs(y) * (1 if x >= 0 else -1),
                         "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                         "Shl": lambda: x << y, "Shr": lambda: x >> y}[op]())
            else:
                v = APP(op, a, c)
            if wo:
                if v.op == "int":
                    lo, hi = int_range(ty)
                    return mk("tup", (v, INT(not (lo <= v.a[0] <= hi))))
                return mk("tup", (v, mk("ovf", op, a, c, ty)))
            return v
        if ty == "bool":
            if op == "BitAnd":
                for x, y in ((a, c), (c, a)):
                    if x.op == "int":
                        return y if x.a[0] else FALSE
                return mk("and", a, c)
            if op == "BitOr":
                for x, y in ((a, c), (c, a)):
                    if x.op == "int":
                        return TRUE if x.a[0] else y
                return mk("or", a, c)
            if op == "BitXor":
                return mk("not", mk("beq", a, c))
        if ty in ("f64", "f32"):
            return APP("f" + op.lower(), a, c)
        return APP(op, a, c)

    def disc_cmp(self, st, op, a, c):
        if op not in ("Eq", "Ne"):
            return None
        for x, y in ((a, c), (c, a)):
            if x.op == "disc" and y.op in ("int", "adt"):
                if y.op == "int":
                    ad = ADTS.get(x.a[1])
                    nm = [v["n"] for v in ad["v"] if int(v["d"]) == y.a[0]] if ad else []
                    if len(nm) != 1:
                        return None
                    r = isin(x, nm)
                else:
                    r = isin(x, (y.a[1],))
                return r if op == "Eq" else NOT(r)
            if x.op == "adt" and y.op == "int":
                ad = ADTS.get(x.a[0])
                nm = [v["n"] for v in ad["v"] if int(v["d"]) == y.a[0]] if ad else []
                if len(nm) != 1:
                    return None
                r = INT(x.a[1] == nm[0])
                return r if op == "Eq" else NOT(r)
            if x.op in ("sgn", "neg") and y.op in ("adt", "int"):
                m = {"Less": -1, "Equal": 0, "Greater": 1, -1: -1, 0: 0, 1: 1, 255: -1}
                r = isin(x, (m[y.a[1] if y.op == "adt" else y.a[0]],))
                return r if op == "Eq" else NOT(r)
        if a.op == "adt" and c.op == "adt":
            r = INT(a.a[1] == c.a[1])
            return r if op == "Eq" else NOT(r)
        if a.op == "disc" and c.op == "disc":
            r = mkeq(a.a[0], c.a[0]) if self.fieldless(a.a[1]) else mkeq(a, c)
            return r if op == "Eq" else NOT(r)
        return None

    def fieldless(self, path):
        ad = ADTS.get(path)
        return bool(ad and all(not v["f"] for v in ad["v"]))

    # ---- calls -----------------------------------------------------------------------------------
    def call(self, b, d, bi, bb, t, st):
        f = self.operand(b, st, d, t[1])
        args = [self.operand(b, st, d, a) for a in t[2]]
        site = (b, bi, bb)
        self.sites += 1
        dty = t[6] if len(t) > 6 else ""
        # silent tracing plumbing
        if f.op == "fnv":
            c = self.callees[f.a[0]]
            outs = self.invoke(st, c, args, site, dty, d)
        else:
            outs = self.call_value(st, f, args, site, dty)
        res = []
        for o in outs:
            if o.kind == "ret":
                if t[4] == -1:
                    res.append((None, o.st, "panic", mk("panic", "diverging call", self.site(b, bb))))
                    continue
                r, p = self.place(o.st, d, t[3])
                self.wr(o.st, r, p, o.val)
                res.append((t[4], o.st, "goto", None))
            else:
                res.append((None, o.st, o.kind, o.info))
        return res

    def invoke(self, st, c, args, site, dty, d=None):
        path = c.get("res", c["path"])
        n = norm(path)
        tr = norm(c["trait"]) if "trait" in c else None
        b, bi, bb = site
        if "key" not in c and tr is not None and c.get("ga") and "<" in c.get("rself", ""):
            # called from a client crate: the instance of the library's generic implementation, when it was extracted
            own, sub = c["rself"], c["ga"][0]
            if sub.startswith(own[: own.index("<") + 1]) and sub.endswith(">"):
                k = f"{path}<[{sub[own.index('<') + 1:-1]}]>"
                if k in self.F.raw:
                    c = dict(c, key=k)
        r = self.M.dispatch(self, st, c, n, tr, args, site, dty)
        if r is not None:
            return r
        key = c.get("key")
        if key is None and path in self.F.by_path:
            key = self.F.by_path[path]
        if key is None and "dflt" in c and "res" not in c and c["name"] not in ("execute", "backoff", "timeout"):
            if self.F.raw.get(c["dflt"]):
                key = c["dflt"]
        if key is not None and key in self.F.raw:
            return self.run_fn(st, key, args)
        return self.unknown_call(st, c, n, args, site, dty)

    def unknown_call(self, st, c, n, args, site, dty):
        st = st.copy()
        self.unknown[n] = self.unknown.get(n, 0) + 1
        rargs = tuple(self.resolve(st, a) for a in args)
        k = st.cnt.get(n, 0)
        st.cnt[n] = k + 1
        v = mk("res", n, k, rargs)
        st.emit("unk", n, rargs, self.site(site[0], site[2]))
        for i, a in enumerate(args):
            if a.op == "mref":
                self.wr(st, a.a[0], a.a[1], mk("havoc", n, k, i, self.resolve(st, a)))
        return [Out(st, "ret", v)]

    def call_value(self, st, f, args, site, dty=""):
        """call a closure / fn value with an argument list"""
        if f.op == "mref":
            inner = self.rd(st, f.a[0], f.a[1])
            if inner.op == "clo":
                return self.run_closure(st, inner, args, f)
            return self.call_value(st, inner, args, site, dty)
        if f.op == "clo":
            return self.run_closure(st, f, args, None)
        if f.op == "fnv":
            return self.invoke(st, self.callees[f.a[0]], args, site, dty)
        if f.op == "ctor":
            st = st.copy()
            if len(args) == 1 and is_newtype(f.a[0]):
                return [Out(st, "ret", args[0])]
            ad = ADTS.get(f.a[0])
            names = [str(i) for i in range(len(args))]
            return [Out(st, "ret", ADT(f.a[0], f.a[1], zip(names, args)))]
        if f.op == "tr":
            return [Out(st.copy(), "ret", TR)]
        st = st.copy()
        rargs = tuple(self.resolve(st, a) for a in args)
        st.emit("callv", f, rargs)
        k = st.cnt.get("callv", 0)
        st.cnt["callv"] = k + 1
        return [Out(st, "ret", mk("res", "callv", k, (f,) + rargs))]

    def run_closure(self, st, clo, args, ref):
        b = self.F.body(clo.a[0])
        if b is None:
            st = st.copy()
            return [Out(st, "ret", mk("res", "closure " + clo.a[0], 0, tuple(args)))]
        if len(b.span) > 2 and tracing_macro(b.span[2]):
            return [Out(st.copy(), "ret", TR)]
        selfty = b.locals[1][0] if len(b.locals) > 1 else ""
        if ref is None and selfty.startswith("&mut"):
            st = st.copy()
            h = mk("H", "clo", clo.a[0], len(self.stack))
            st.mem[h] = clo
            ref = mk("mref", h, ())
        a0 = ref if (ref is not None and selfty.startswith("&mut")) else clo
        return self.run_fn(st, clo.a[0], [a0] + list(args))


def evcat(a, b):
    for e in evlist(b):
        a = mk("ev", a, e)
    return a


def setinter(a, b):
    an = isinstance(a, tuple)
    bn = isinstance(b, tuple)
    if not an and not bn:
        return a & b
    if an and bn:
        return ("~", a[1] | b[1])
    if an:
        return b - a[1]
    return a - b[1]


def setminus(u, s):
    if u is None:
        return ("~", s)
    if isinstance(u, tuple):
        return ("~", u[1] | s)
    return u - s


def sgn_consistent(facts, atom):
    c0, d0 = lparts(atom.a[0])
    key = tuple(sorted(((k, v) for k, v in d0.items()), key=lambda kv: kv[0].uid))
    cons = []
    for a, s in facts.items():
        if a.op == "sgn":
            c, d = lparts(a.a[0])
            if tuple(sorted(((k, v) for k, v in d.items()), key=lambda kv: kv[0].uid)) == key:
                cons.append((-c, s))
    if len(cons) < 2:
        return True
    pts = sorted({p for p, _ in cons})
    cand = []
    for i, p in enumerate(pts):
        cand.append(p)
        cand.append(p + 0.5)
    cand.append(pts[0] - 1)
    for v in cand:
        if all(((v > p) - (v < p)) in s for p, s in cons):
            return True
    return False


def diff(a, b, path=()):
    """smallest differing sub-places"""
    if a is b:
        return []
    if a.op == b.op == "adt" and a.a[1] == b.a[1] and [k for k, _ in a.a[2]] == [k for k, _ in b.a[2]]:
        out = []
        for (k, x), (_, y) in zip(a.a[2], b.a[2]):
            out += diff(x, y, path + (k,))
        return out
    if a.op == b.op and a.op in ("tup",) and len(a.a[0]) == len(b.a[0]):
        out = []
        for i, (x, y) in enumerate(zip(a.a[0], b.a[0])):
            out += diff(x, y, path + (str(i),))
        return out
    if (a.op == "ov" or b.op == "ov") and (a.a[0] if a.op == "ov" else a) is (b.a[0] if b.op == "ov" else b):
        base = a.a[0] if a.op == "ov" else a
        da = dict(a.a[1]) if a.op == "ov" else {}
        db = dict(b.a[1]) if b.op == "ov" else {}
        if not any(k.startswith("as ") for k in list(da) + list(db)):
            out = []
            for k in sorted(set(da) | set(db)):
                x = da.get(k, fld(base, k))
                y = db.get(k, fld(base, k))
                out += diff(x, y, path + (k,))
            return out
    return [(path, a, b)]
