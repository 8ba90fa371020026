"""Hash-consed abstract values (provenance terms).

A term says where a value came from: a constant, an argument, a field of another term, the result of
a named operation.  Terms are interned, so equality is identity.
"""

_tab = {}
_n = [0]


class T:
    __slots__ = ("op", "a", "uid", "_fv")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _n[0] += 1
        t.uid = _n[0]
        t._fv = None
        _tab[k] = t
    return t


def INT(v):
    return mk("int", int(v))


def STR(s):
    return mk("str", s)


TRUE = INT(1)
FALSE = INT(0)
UNIT = mk("tup", ())
MOVED = mk("moved")
TR = mk("tr")  # anything that only feeds the tracing/log machinery


def SYM(*n):
    return mk("sym", *n)


def APP(name, *args):
    return mk("app", name, tuple(args))


def ADT(path, variant, items):
    return mk("adt", path, variant, tuple(items))


def OPT(v=None):
    if v is None:
        return ADT("std::option::Option", "None", ())
    return ADT("std::option::Option", "Some", (("0", v),))


def OK(v):
    return ADT("std::result::Result", "Ok", (("0", v),))


def ERR(v):
    return ADT("std::result::Result", "Err", (("0", v),))


def subterms(t, seen=None):
    """all T nodes reachable"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset)):
            st.extend(x)
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


_hastr = {}


def has_tr(t):
    r = _hastr.get(t)
    if r is None:
        r = TR in subterms(t)
        _hastr[t] = r
    return r


BINDER = {"any": 1, "comp": 4, "retained": 1, "dnf": 0}
_fbv = {}


def free_bvs(x):
    """every bound-variable name occurring in x (over-approximates the free ones)"""
    if isinstance(x, T):
        r = _fbv.get(x)
        if r is None:
            r = frozenset((x,)) if x.op == "bv" else free_bvs(x.a)
            _fbv[x] = r
        return r
    if isinstance(x, (tuple, frozenset)):
        out = frozenset()
        for y in x:
            if isinstance(y, (T, tuple, frozenset)):
                out |= free_bvs(y)
        return out
    return frozenset()


def subst(x, m, memo=None):
    """replace terms by the map m (T -> T), rebuilding through the smart constructors"""
    if memo is None:
        memo = {}
    if isinstance(x, T):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if not x.a:
            return x
        b = BINDER.get(x.op)
        if b is not None and len(x.a) > b and isinstance(x.a[b], T) and x.a[b].op == "bv":
            bv = x.a[b]
            if bv in m:
                m = {k: v for k, v in m.items() if k is not bv}
                memo = {}
            used = free_bvs(tuple(m.values()))
            if bv in used:
                st = subterms(x)
                if not any(k in st for k in m):
                    return x
                i = 1 + max([v.a[0] for v in used | free_bvs(x.a) if isinstance(v.a[0], int)] + [-1])
                nb = mk("bv", i)
                x0 = x
                x = mk(x.op, *[subst(y, {bv: nb}) for y in x.a])
                r = subst(x, m, memo)
                return r
            if not m:
                return x
            a2 = tuple(subst(y, m, memo) for y in x.a)
            return x if a2 == x.a else rebuild(x.op, a2)
        a2 = tuple(subst(y, m, memo) for y in x.a)
        r = x if a2 == x.a else rebuild(x.op, a2)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        r = tuple(subst(y, m, memo) for y in x)
        return x if r == x else r
    if isinstance(x, frozenset):
        r = frozenset(subst(y, m, memo) for y in x)
        return r if r == x else norm_set(r)
    return x


def norm_pair(a, s):
    """normal form of the literal `atom a lies in s`: True, False or an (atom, set) pair"""
    n = 0
    while n < 20:
        n += 1
        if a.op == "int":
            v = a.a[0]
            return (v not in s[1]) if isinstance(s, tuple) else (v in s)
        if a.op == "adt":
            v = a.a[1]
            return (v not in s[1]) if isinstance(s, tuple) else (v in s)
        if a.op == "neg" and not isinstance(s, tuple):
            a, s = a.a[0], frozenset(-x for x in s)
            continue
        if a.op == "in" and not isinstance(s, tuple):
            if 1 in s and 0 in s:
                return True
            if 1 in s:
                a, s = a.a[0], a.a[1]
                continue
            u = universe(a.a[0])
            if u is not None and not isinstance(a.a[1], tuple):
                a, s = a.a[0], u - a.a[1]
                continue
            if u is None and not isinstance(a.a[1], tuple):
                a, s = a.a[0], ("~", a.a[1])
                continue
        break
    if not isinstance(s, tuple):
        u = universe(a)
        if u is not None:
            s = s & u
            if s == u:
                return True
        if not s:
            return False
    return (a, s)


NEVER = frozenset()


def is_pair(x):
    return isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], T) and (isinstance(x[1], frozenset) or isinstance(x[1], tuple) and len(x[1]) == 2 and x[1][0] == "~")


def norm_conj(c):
    """-> frozenset of normalised pairs, or None when contradictory"""
    d = {}
    for a, s in c:
        r = norm_pair(a, s)
        if r is True:
            continue
        if r is False:
            return None
        a, s = r
        if a in d:
            o = d[a]
            if isinstance(o, tuple) and isinstance(s, tuple):
                s = ("~", o[1] | s[1])
            elif isinstance(o, tuple):
                s = s - o[1]
            elif isinstance(s, tuple):
                s = o - s[1]
            else:
                s = s & o
            if isinstance(s, frozenset) and not s:
                return None
        d[a] = s
    return frozenset(d.items())


FALSECONJ = frozenset([("false",)])


def norm_set(r):
    if r and all(is_pair(x) for x in r):
        c = norm_conj(r)
        return FALSECONJ if c is None else c
    if r and all(isinstance(x, frozenset) for x in r):
        return frozenset(x for x in r if x != FALSECONJ)
    return r


def rebuild(op, a):
    if op == "lin":
        acc = INT(a[0])
        for v, c in a[1]:
            acc = ladd(acc, lmul(v, c))
        return acc
    if op == "fld":
        return fld(a[0], a[1])
    if op == "dc":
        return dc(a[0], a[1])
    if op == "in":
        return isin(a[0], a[1])
    if op == "eq":
        return mkeq(a[0], a[1])
    if op == "sgn":
        return mksgn(a[0])
    if op == "disc":
        return mkdisc(a[0], a[1])
    if op == "any" and not a[2]:
        return FALSE
    if op == "sat" and len(a) == 1:
        if not a[0]:
            return FALSE
        if frozenset() in a[0]:
            return TRUE
    if op == "comp":
        return mk(op, a[0], tuple(c for c in a[1] if c[0] != FALSECONJ), *a[2:])
    return mk(op, *a)


# ---- linear forms -------------------------------------------------------------------------------


def lparts(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def lmake(c, d):
    items = tuple(sorted(((k, v) for k, v in d.items() if v != 0), key=lambda kv: kv[0].uid))
    if not items:
        return INT(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def ladd(a, b, kb=1):
    ca, da = lparts(a)
    cb, db = lparts(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + kb * v
    return lmake(ca + kb * cb, da)


def lsub(a, b):
    return ladd(a, b, -1)


def lmul(a, k):
    c, d = lparts(a)
    return lmake(c * k, {x: v * k for x, v in d.items()})


# ---- booleans and atoms ---------------------------------------------------------------------------
# atom universes: sgn -> {-1,0,1}; disc -> variant names; everything else bool {0,1} unless int switch
S3 = frozenset((-1, 0, 1))
B2 = frozenset((0, 1))
ADTS = {}  # path -> facts, filled by the loader


def variants(path):
    a = ADTS.get(path)
    if not a:
        return None
    return [v["n"] for v in a["v"]]


def universe(atom):
    if atom.op == "sgn":
        return S3
    if atom.op == "disc":
        v = variants(atom.a[1])
        return frozenset(v) if v else None
    if atom.op == "iv":
        return None
    return B2


def mksgn(l):
    """-> (atom or int sign, flip)   returns term: int const or ('sgn', l) possibly wrapped 'nsgn'"""
    c, d = lparts(l)
    if not d:
        return INT((c > 0) - (c < 0))
    it = sorted(d.items(), key=lambda kv: kv[0].uid)
    if it[0][1] < 0:
        return mk("neg", mk("sgn", lmul(l, -1)))
    return mk("sgn", l)


def isin(atom, s):
    """boolean term: atom's value lies in s"""
    s = frozenset(s)
    if atom.op == "int":
        return INT(atom.a[0] in s)
    if atom.op == "neg":
        return isin(atom.a[0], frozenset(-x for x in s))
    if atom.op == "adt":  # constant enum value used as disc atom
        return INT(atom.a[1] in s)
    if atom.op == "sgn":
        # how many there are, against none: whether there are any
        c, d = lparts(atom.a[0])
        if len(d) == 1 and c in (0, -1):
            (n, k), = d.items()
            if k == 1 and n.op == "app" and n.a[0] == "count" and (c == 0 or (0 in s) == (1 in s)):
                yes = (1 in s)
                no = (0 in s) if c == 0 else (-1 in s)
                return isin(mk("any", n.a[1][0], n.a[1][1].a[0], n.a[1][1].a[1]), ({1} if yes else set()) | ({0} if no else set()))
    u = universe(atom)
    if u is not None:
        s = s & u
        if s == u:
            return TRUE
        if not s:
            return FALSE
    if atom.op == "in" and u == B2:
        return atom if s == frozenset((1,)) else NOT(atom)
    return mk("in", atom, s)


def NOT(b):
    if b.op == "int":
        return INT(1 - b.a[0])
    if b.op == "in":
        u = universe(b.a[0])
        if u is not None:
            return isin(b.a[0], u - b.a[1])
    if b.op == "not":
        return b.a[0]
    if b.op == "tr":
        return b
    if b.op in ("and", "or"):
        return mk("not", b)
    return mk("in", b, frozenset((0,)))


def fld(t, name):
    if t.op == "adt":
        for k, v in t.a[2]:
            if k == name:
                return v
        return mk("fld", t, name)
    if t.op in ("tup", "arr"):
        try:
            return t.a[0][int(name)]
        except (ValueError, IndexError):
            return mk("fld", t, name)
    if t.op in ("clo", "cor"):
        try:
            return t.a[1][int(name)]
        except (ValueError, IndexError):
            return mk("fld", t, name)
    if t.op == "ov":
        for k, v in t.a[1]:
            if k == name:
                return v
        return fld(t.a[0], name)
    if t.op in ("tr", "moved"):
        return t
    return mk("fld", t, name)


def dc(t, variant):
    if t.op == "adt":
        if t.a[1] == variant:
            return t
        return mk("bot")
    if t.op == "ov":
        k = "as " + variant
        for kk, v in t.a[1]:
            if kk == k:
                return v
        return dc(t.a[0], variant)
    if t.op in ("tr", "moved"):
        return t
    return mk("dc", t, variant)


def mkdisc(t, path):
    if t.op == "adt":
        return t  # isin() treats it as constant
    if t.op == "ov":
        ks = [k for k, _ in t.a[1] if k.startswith("as ")]
        if not ks:
            return mkdisc(t.a[0], path)
        return mkdisc(t.a[0], path)
    if t.op in ("sgn", "neg", "int") and path.endswith("cmp::Ordering"):
        return t
    if t.op == "tr":
        return t
    return mk("disc", t, path)


NUM_T = (
    "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize",
)


def is_num_ty(ty):
    ty = ty.strip()
    while ty.startswith("&"):
        ty = ty[1:].strip()
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1] if " " in ty else ty
        if ty.startswith("mut "):
            ty = ty[4:]
    if ty in NUM_T or ty in ("f64", "f32"):
        return True
    if ty.startswith("chrono::DateTime") or ty.startswith("chrono::TimeDelta") or ty.startswith("std::time::Duration"):
        return True
    if ty.startswith("tokio::time::Instant") or ty.startswith("std::time::Instant"):
        return True
    a = ADTS.get(ty)
    if a and is_newtype(ty):
        return is_num_ty(a["v"][0]["f"][0][1])
    if ty.startswith("rexecutor") and ty.endswith("::JobId"):
        return True
    return False


def is_newtype(path):
    a = ADTS.get(path)
    return bool(
        a
        and not a["enum"]
        and path.startswith("rexecutor")
        and len(a["v"]) == 1
        and len(a["v"][0]["f"]) == 1
        and a["v"][0]["f"][0][0] == "0"
    )


def mkeq(a, b):
    if a is b:
        return TRUE
    if a.op == "tr" or b.op == "tr":
        return TR
    if a.op in ("int", "str") and b.op in ("int", "str"):
        return INT(a is b)
    if a.op == "adt" and b.op == "adt":
        if a.a[1] != b.a[1]:
            return FALSE
        if not a.a[2] and not b.a[2]:
            return TRUE
        if len(a.a[2]) == 1 and len(b.a[2]) == 1:
            return mkeq(a.a[2][0][1], b.a[2][0][1])
    for x, y in ((a, b), (b, a)):
        if x.op == "adt" and not x.a[2] and y.op != "adt":
            ad = ADTS.get(x.a[0])
            if ad and ad["enum"]:
                return isin(mkdisc(y, x.a[0]), frozenset((x.a[1],)))
    if a.op == "lin" or b.op == "lin":
        return isin(mksgn(lsub(a, b)), (0,))
    if b.uid < a.uid:
        a, b = b, a
    return mk("in", mk("eq", a, b), frozenset((1,)))


def numeq(a, b):
    return isin(mksgn(lsub(a, b)), (0,))


def numcmp(op, a, b):
    if has_tr(a) or has_tr(b):
        return TR
    s = mksgn(lsub(a, b))
    m = {"Lt": (-1,), "Le": (-1, 0), "Gt": (1,), "Ge": (1, 0), "Eq": (0,), "Ne": (-1, 1)}[op]
    return isin(s, m)


# ---- printing ------------------------------------------------------------------------------------


def sh(p):
    return p.split("::")[-1] if "::" in p else p


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        if isinstance(t, frozenset):
            return "{" + ",".join(sorted(show(x, d + 1) for x in t)) + "}"
        return str(t)
    if d > 14:
        return "…"
    o, a = t.op, t.a
    d += 1
    if o == "int":
        return str(a[0])
    if o == "str":
        return repr(a[0])
    if o == "adt":
        fs = ", ".join((f"{k}: " if not k.isdigit() else "") + show(v, d) for k, v in a[2])
        return f"{sh(a[0])}::{a[1]}" + (f"({fs})" if a[2] else "")
    if o == "tup":
        return "(" + ", ".join(show(x, d) for x in a[0]) + ")"
    if o == "arr":
        return "[" + ", ".join(show(x, d) for x in a[0]) + "]"
    if o == "fld":
        return f"{show(a[0], d)}.{a[1]}"
    if o == "dc":
        return f"{show(a[0], d)}@{a[1]}"
    if o == "sym":
        return "$" + ".".join(str(show(x, d)) for x in a)
    if o == "app":
        return f"{a[0]}({', '.join(show(x, d) for x in a[1])})"
    if o == "lin":
        return "[" + " + ".join(([str(a[0])] if a[0] else []) + [(f"{c}*" if c != 1 else "") + show(x, d) for x, c in a[1]]) + "]"
    if o == "in":
        return f"({show(a[0], d)}∈{show(a[1], d)})"
    if o in ("clo", "cor"):
        return f"{o}<{a[0][-40:]}>"
    if o == "nx":
        return f"{a[0]}@{str(a[1]).split(' ')[0].split('/')[-1]}#{a[2]}" + ("'" if a[-1] == "prev" else "")
    if o == "ov":
        return f"{show(a[0], d)}{{" + ", ".join(f"{k}:={show(v, d)}" for k, v in a[1]) + "}"
    return f"{o}(" + ", ".join(show(x, d) for x in a) + ")"
