"""Abstract semantics of sqlx: statements are values made of pieces (text, bound values, text appended per element),
running one is an `await` event carrying the statement and the connection it runs on.

    qb(pieces)                     a QueryBuilder
    stmt(pieces, args, mapper)     a statement ready to run; $n refers to args[n-1]
    frag("sql", text) | frag("bind", v) | frag("base", v) | frag("rec", fn, args) | frag("rep", src, bv, cases, shape)
"""
from .terms import *
from . import models as M
from .interp import Out

RUN = {"execute": "execute", "execute_many": "execute", "fetch_one": "fetch_one", "fetch_optional": "fetch_optional", "fetch_all": "fetch_all"}


def frag(*a):
    return mk("frag", *a)


def pieces_of(v):
    if v.op == "qb":
        return v.a[0]
    return (frag("base", v),)


def text(I, st, a):
    v = I.resolve(st, a)
    if v.op == "str":
        return (frag("sql", v.a[0]),)
    if v.op == "app" and v.a[0] == "concat":
        return text(I, st, v.a[1][0]) + text(I, st, v.a[1][1])
    return (frag("dyn", v),)


def append(I, st, ref, ps):
    if ref.op != "mref":
        return False
    r = ref
    for _ in range(20):
        v = I.rd(st, r.a[0], r.a[1])
        if v.op != "mref":
            break
        r = v
    I.wr(st, r.a[0], r.a[1], mk("qb", pieces_of(v) + ps))
    return True


def sep_add(I, st, ref, ps, separated):
    """push through a Separated: the separator comes before every separated push but the first"""
    r = ref
    for _ in range(20):
        v = I.rd(st, r.a[0], r.a[1])
        if v.op != "mref":
            break
        r = v
    if v.op != "sepb":
        return False
    b, sep, used = v.a
    if separated:
        if used.op != "int":
            return False
        if used.a[0]:
            ps = sep + ps
        I.wr(st, r.a[0], r.a[1], mk("sepb", b, sep, INT(1)))
    return append(I, st, b, ps)


def stmt(ps, args=(), mapper=None):
    return mk("stmt", tuple(ps), tuple(args), mapper if mapper is not None else UNIT)


def row_mapper(I, ty):
    """key of the local FromRow implementation of ty"""
    for k, f in I.F.raw.items():
        if f.get("local") and f.get("name") == "from_row" and (f.get("self") or "").split("<")[0] == ty.split("<")[0]:
            return k
    return None


def h_sqlx(I, st, c, path, tr, name, args, site, dty):
    ga = c.get("ga") or []
    if path.startswith(("sqlx::QueryBuilder", "sqlx::query_builder::QueryBuilder")):
        st = st.copy()
        if name == "new":
            return M.ret(st, mk("qb", text(I, st, args[0])))
        if name == "push" and append(I, st, args[0], text(I, st, args[1])):
            return M.ret(st, args[0])
        if name == "push_bind" and append(I, st, args[0], (frag("bind", I.resolve(st, args[1])),)):
            return M.ret(st, args[0])
        if name == "separated":
            return M.ret(st, mk("sepb", args[0], text(I, st, args[1]), INT(0)))
        if name in ("build", "build_with"):
            return M.ret(st, stmt(pieces_of(M.val(I, st, args[0]))))
        if name in ("build_query_as", "build_query_as_with"):
            k = row_mapper(I, ga[1] if len(ga) > 1 else "")
            return M.ret(st, stmt(pieces_of(M.val(I, st, args[0])), (), mk("fnkey", k) if k else UNIT))
        if name == "build_query_scalar":
            return M.ret(st, stmt(pieces_of(M.val(I, st, args[0])), (), mk("scalar")))
        return None
    if path.startswith("sqlx::query_builder::Separated"):
        st = st.copy()
        ps = (frag("bind", I.resolve(st, args[1])),) if "bind" in name else text(I, st, args[1])
        if name in ("push", "push_bind", "push_unseparated", "push_bind_unseparated") and sep_add(I, st, args[0], ps, "unseparated" not in name):
            return M.ret(st, args[0])
        return None
    if tr == "std::default::Default" and ga and ga[0].endswith("PgArguments"):
        return M.ret(st.copy(), mk("pgargs", ()))
    if tr == "sqlx::Arguments" or "sqlx::Arguments" in path:
        st = st.copy()
        if name == "reserve":
            return M.ret(st, UNIT)
        if name == "add" and args[0].op == "mref":
            v = M.val(I, st, args[0])
            if v.op == "app" and v.a[0] == "default" and "PgArguments" in show(v):
                v = mk("pgargs", ())
            if v.op == "pgargs":
                I.wr(st, args[0].a[0], args[0].a[1], mk("pgargs", v.a[0] + (I.resolve(st, args[1]),)))
                return M.ret(st, OK(UNIT))
        return None
    if tr == "sqlx::Encode" and name in ("size_hint",):
        return M.ret(st.copy(), INT(0))
    if path in ("sqlx::query", "sqlx::query_as", "sqlx::query_scalar", "sqlx::query_with", "sqlx::query_with_result", "sqlx::query_as_with", "sqlx::query_scalar_with", "sqlx::query_as_with_result"):
        st = st.copy()
        av = ()
        if len(args) > 1:
            v = M.val(I, st, args[1])
            if v.op == "adt" and v.a[1] == "Ok":
                v = M.val(I, st, v.a[2][0][1])
            if v.op == "app" and v.a[0] == "default" and "PgArguments" in show(v):
                v = mk("pgargs", ())
            if v.op != "pgargs":
                return None
            av = v.a[0]
        mp = UNIT
        if "_as" in name:
            k = row_mapper(I, ga[1] if len(ga) > 1 else "")
            mp = mk("fnkey", k) if k else UNIT
        elif "_scalar" in name:
            mp = mk("scalar")
        return M.ret(st, stmt(text(I, st, args[0]), av, mp))
    if path.startswith(("sqlx::query::Query", "sqlx::query::Map", "sqlx::query::QueryAs", "sqlx::query::QueryScalar", "sqlx::query_as::", "sqlx::query_scalar::")):
        v = M.val(I, st, args[0])
        if v.op != "stmt":
            return None
        st = st.copy()
        if name == "bind":
            return M.ret(st, stmt(v.a[0], v.a[1] + (I.resolve(st, args[1]),), v.a[2]))
        if name in ("map", "try_map"):
            return M.ret(st, stmt(v.a[0], v.a[1], mk("clos", name, args[1])))
        if name in ("persistent",):
            return M.ret(st, v)
        if name in RUN:
            return M.ret(st, mk("fut", "sql::" + RUN[name], (v, args[1])))
        return None
    if path.startswith("sqlx::Pool::") or path.startswith("sqlx::Acquire::") or path.startswith("sqlx::Connection::"):
        if name in ("begin",):
            return M.ret(st.copy(), mk("fut", "sql::begin", (args[0],)))
        if name == "acquire":
            return M.ret(st.copy(), mk("fut", "sql::acquire", (args[0],)))
    if path.startswith("sqlx::Transaction::"):
        if name in ("commit", "rollback"):
            return M.ret(st.copy(), mk("fut", "sql::" + name, (args[0],)))
    if tr in ("std::ops::Deref", "std::ops::DerefMut") and (c.get("rself") or "").startswith(("sqlx::Transaction", "sqlx::pool::PoolConnection")) or \
            tr in ("std::ops::Deref", "std::ops::DerefMut") and ga and ga[0].startswith(("sqlx::Transaction", "sqlx::pool::PoolConnection")):
        return M.ret(st.copy(), args[0])
    if path.endswith("PgQueryResult::rows_affected"):
        return M.ret(st.copy(), mk("app", "rows_affected", (I.resolve(st, args[0]),)))
    if tr == "sqlx::Row" or path.startswith("sqlx::Row::"):
        r, ix = I.resolve(st, args[0]), I.resolve(st, args[1])
        v = mk("app", "col", (r, ix))
        if name in ("get", "get_unchecked"):
            return M.ret(st.copy(), v)
        if name in ("try_get", "try_get_unchecked"):
            return M.ret(st.copy(), OK(v))
    if path.startswith("sqlx::sqlx_postgres::PgListener") or "PgListener" in path:
        if name in ("recv", "try_recv", "listen", "listen_all", "connect_with", "connect", "unlisten"):
            return M.ret(st.copy(), mk("fut", "pg::" + name, tuple(args)))
        if name == "new":
            return None
    if "PgNotification" in path and name in ("payload", "channel"):
        return M.ret(st.copy(), mk("app", name, (I.resolve(st, args[0]),)))
    return None


def typed(I, st, mapper, row, site):
    """[(state, Result-kind, value)] of turning a row into what the statement returns"""
    if mapper.op == "fnkey":
        outs = I.run_fn(st, mapper.a[0], [row])
    elif mapper.op == "clos":
        outs = I.call_value(st, mapper.a[1], [row], site)
        if mapper.a[0] == "map":
            outs = [Out(o.st, o.kind, OK(o.val), o.info) if o.kind == "ret" else o for o in outs]
    elif mapper.op == "scalar":
        return [Out(st, "ret", OK(mk("app", "col", (row, INT(0)))))]
    else:
        return [Out(st, "ret", OK(row))]
    return outs


def fut_run(kind):
    def h(I, st, v, site):
        q, conn = v.a[1]
        rargs = (I.resolve(st, q), I.resolve(st, conn))
        n = M.count(st, ("res", "sql"))
        r = mk("res", "sql::" + kind, n, rargs)
        st.emit("await", "sql::" + kind, rargs, r)
        M.tick(st)
        if kind == "execute":
            return M.ret(st, r)
        outs = []
        err = st.copy()
        ok = st
        er = M.ADTS.get("std::result::Result") and True
        d = mkdisc(r, "std::result::Result")
        for s, b in I.branch(st, isin(d, ("Ok",))):
            s = s.copy()
            if not b:
                outs.append(Out(s, "ret", ERR(fld(dc(r, "Err"), "0"))))
                continue
            p = fld(dc(r, "Ok"), "0")
            if kind == "fetch_one":
                outs += typed(I, s, q.a[2], mk("app", "row", (p,)), site)
            elif kind == "fetch_optional":
                for s2, b2 in I.branch(s, isin(mkdisc(p, "std::option::Option"), ("Some",))):
                    s2 = s2.copy()
                    if not b2:
                        outs.append(Out(s2, "ret", OK(OPT())))
                        continue
                    for o in typed(I, s2, q.a[2], mk("app", "row", (fld(dc(p, "Some"), "0"),)), site):
                        if o.kind != "ret":
                            outs.append(o)
                        else:
                            rv = M.val(I, o.st, o.val)
                            if rv.op == "adt" and rv.a[1] == "Ok":
                                outs.append(Out(o.st, "ret", OK(OPT(rv.a[2][0][1]))))
                            else:
                                outs.append(Out(o.st, "ret", rv))
            else:
                rows = mk("app", "rows", (p,))
                bv = M.bvar(I)
                I.bdepth += 1
                try:
                    os = typed(I, s.copy(), q.a[2], mk("elem", rows, bv), site)
                finally:
                    I.bdepth -= 1
                if len(os) == 1 and os[0].kind == "ret" and M.val(I, os[0].st, os[0].val).op == "adt" and M.val(I, os[0].st, os[0].val).a[1] == "Ok":
                    x = I.resolve(os[0].st, M.val(I, os[0].st, os[0].val).a[2][0][1])
                    c = rows if x is mk("elem", rows, bv) else mk("comp", rows, ((frozenset(), x),), mk("ord", "iter"), (), bv)
                    outs.append(Out(s, "ret", OK(c)))
                else:
                    outs.append(Out(s, "ret", OK(rows)))
        return outs
    return h


for k in ("execute", "fetch_one", "fetch_optional", "fetch_all"):
    M.FUTS["sql::" + k] = fut_run(k)


def fut_commit(name):
    def h(I, st, v, site):
        rargs = tuple(I.resolve(st, a) for a in v.a[1])
        r = mk("res", "sql::" + name, M.count(st, ("res", "sql")), rargs)
        st.emit("await", "sql::" + name, rargs, r)
        M.tick(st)
        return M.ret(st, r)
    return h


for k in ("begin", "acquire", "commit", "rollback"):
    M.FUTS["sql::" + k] = fut_commit(k)

M.HANDLERS.insert(0, h_sqlx)


# ---- builders filled in loops ---------------------------------------------------------------------------


def rep_value(w, init, ups, src, bv, tag, stages):
    """the builder after a pass over src, each element appending one of the alternatives `ups` (conj, value)"""
    if init.op != "qb":
        return None
    # a name of its own: statements sit inside other quantified terms, whose variables must not clash with it
    nb, bv0 = mk("bv", "rep%d" % src.uid), bv
    ups = [(subst(c, {bv0: nb}), subst(v, {bv0: nb})) for c, v in ups]
    bv = nb
    cases = []
    for c, v in ups:
        if v is w:
            v = mk("qb", (frag("base", w),))
        if v.op != "qb" or not v.a[0] or v.a[0][0] is not frag("base", w):
            return None
        tail = tuple(subst(x, {tag: bv}) for x in v.a[0][1:])
        if any(y is w for x in tail for y in subterms(x)):
            return None
        cases.append((c, tail))
    return mk("qb", init.a[0] + (frag("rep", src, bv, tuple(sorted(set(cases), key=lambda z: (len(z[1]), mk("t", z[1]).uid))), M.shape_of(stages)),))
