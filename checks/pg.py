"""The Postgres backend: the statements it sends, judged by the same rules as the in-memory backend.

Each operation is interpreted abstractly; the statements it runs are parsed (checks/sql.py) and given a meaning over one
row of the jobs table; that meaning is compared with what the property requires."""
from .core import *
import os

from . import sql, query, prune, uniq, ddl, claim as memclaim
from .sql import ROW, Sem, Bad, JS, OPTN, TABLE, NOWT, status_eq
from .mem import SELF, ID, ERRV, NEXT, JOBARG, TRANSITIONS, UPDATE
from .claim import runnable, nows_of, MS

PG = "rexecutor_sqlx::RexecutorPgBackend"
NAME = "RexecutorPgBackend::"
EX = SYM("ex")
RES = "std::result::Result"
NUL = ("attempted_at", "completed_at", "cancelled_at", "discarded_at")


def present(ctx):
    """the crate is part of the analysed tree"""
    return any(f.get("crate") == "rexecutor_sqlx" for f in ctx.F.raw.values())


def guard(ctx, rule, where, fn):
    def go():
        try:
            fn()
        except Bad as e:
            ctx.bad(rule, where, str(e))
    ctx.attempt(rule, where, go)


def paths(ctx, op, args):
    k = ctx.method(PG, op, BACKEND)
    return [] if k is None else ctx.run(k, args)


def sqls(events):
    return [e for e in events if e.a[0] == "await" and e.a[1].startswith("sql::")]


def stmts(events):
    """[(event, parsed statement)]"""
    out = []
    for e in sqls(events):
        if e.a[1] in ("sql::begin", "sql::commit", "sql::rollback", "sql::acquire"):
            continue
        out.append((e, sql.parse(e.a[2][0])[0]))
    return out


def ok_facts(p):
    return {a: s for a, s in p.facts.items()}


def under(facts, f, g):
    """equivalence of two conditions on the row, given what the path knows about the arguments.
    Facts about the arguments only (nothing about results of statements)."""
    f, g = emptied(facts, f), emptied(facts, g)
    keep = [(a, s) for a, s in facts.items() if isinstance(s, frozenset) and a.op in ("disc", "any", "sgn", "eq") and not contains(a, lambda t: t.op in ("res", "row"))]
    ex = [frozenset(keep)] if keep else None
    if ex:
        ats = {a for c in formula.align([f, g])[0] + formula.align([f, g])[1] for a, _ in c}
        rel = [(formula.alpha(a), s) for a, s in keep]
        rel = [(a, s) for a, s in rel if a in ats]
        ex = [frozenset(rel)] if rel else None
    return formula.equiv(f, g, ex)


def emptied(facts, d):
    """quantifiers over collections the path knows to be empty are decided"""
    empty = set()
    for a, s in facts.items():
        if a.op == "any" and a.a[2] == frozenset((frozenset(),)) and s == frozenset((0,)):
            empty.add(unslice(a.a[0]))
    if not empty:
        return d
    out = []
    for c in d:
        cc, dead = [], False
        for a, s in c:
            if a.op == "any" and unslice(a.a[0]) in empty:
                if 0 not in s:
                    dead = True
                continue
            cc.append((a, s))
        if not dead:
            out.append(frozenset(cc))
    return out


def unslice(t):
    while whole(t):
        t = t.a[0]
    return t


def whole(t):
    return t.op == "slice" and t.a[1].op == "adt" and t.a[1].a[1] == "RangeFull"


def full(x):
    """terms with whole-range slices removed"""
    return rewrite(x, lambda t: t.a[0] if whole(t) else None)


def split_of(t):
    """('split_last'|'split_first', collection) when t is the rest or the end element of a split"""
    if t.op == "app" and t.a[0] in ("rest", "endof") and len(t.a[1]) == 2:
        return t.a[0], t.a[1][0], t.a[1][1]
    if t.op in ("rest", "endof") and len(t.a) == 2:
        return t.op, t.a[0], t.a[1]
    return None


def joined(e):
    """conditions over `all but the last` and `the last` element of a list become one over the list"""
    k = e[0]
    if k in ("paren", "cast"):
        return (k, joined(e[1])) + tuple(e[2:])
    if k == "not":
        return ("not", joined(e[1]))
    if k not in ("and", "or"):
        return e
    parts = [joined(x) for x in e[1]]
    for i, r in enumerate(parts):
        if r[0] != "rep" or r[1] != k:
            continue
        s = split_of(r[3])
        if s is None or s[0] != "rest" or len(r[2]) != 1 or r[2][0][0] or r[2][0][1] is None:
            continue
        el = mk("elem", r[3], r[4])
        for j, x in enumerate(parts):
            if j == i:
                continue
            one = r[2][0][1]
            if one[0] == "rec" and x[0] == "rec" and one[1] == x[1] and len(one[2]) == len(x[2]):
                good = True
                for a, b in zip(one[2], x[2]):
                    if a is b:
                        continue
                    sb = split_of(b)
                    if not (a is el and sb is not None and sb[0] == "endof" and sb[1:] == s[1:]):
                        good = False
                if good:
                    src = s[2]
                    m = ("rep", k, [(frozenset(), ("rec", one[1], tuple(mk("elem", src, r[4]) if a is el else a for a in one[2])))], src, r[4])
                    rest = [y for n, y in enumerate(parts) if n not in (i, j)] + [m]
                    return joined((k, rest)) if len(rest) > 1 else rest[0]
    return (k, parts)


def where_of(st):
    return st["where"] if st["where"] is not None else ("bool", True)


def pred(sem, e):
    return [frozenset(full(c)) for c in sem.pred(joined(e))]


# ---- state changes ----------------------------------------------------------------------------------------


def setval(col, v):
    """the value a column gets, in the shape of the job field"""
    if col in NUL and not (v.op == "adt" and v.a[0] == OPTN):
        return OPT(v)
    return v


def appended(facts, old, v):
    if v.op != "push" or v.a[0] is not fld(old, "errors"):
        return None if is_opaque(v) else False
    x = v.a[1]
    if x.op != "adt" or x.a[0] != "json":
        return None
    d = dict(x.a[2])
    if set(d) != {"attempt", "error_type", "details", "recorded_at"}:
        return False
    et = d["error_type"]
    want = fld(ERRV, "error_type")
    if et.op == "adt":
        kn = variant_of(want, facts, "rexecutor::job::ErrorType")
        t = None if kn is None else kn == et.a[1] and all(y is fld(dc(want, kn), n) for n, y in et.a[2])
    else:
        t = same(facts, et, want)
    rs = [same(facts, d["attempt"], fld(old, "attempt")), t, same(facts, d["details"], fld(ERRV, "message")), is_now(d["recorded_at"])]
    return False if False in rs else None if None in rs else True


appended.text = "the given error appended with the current attempt number and time"


def one_update(ctx, rule, where, p, idt, required, ignore=()):
    """the Ok path p runs one UPDATE, of the addressed job, setting exactly the required columns"""
    ss = stmts(p.events)
    if len(ss) != 1:
        return ctx.check(rule, where, False if not ss else None, f"success after {len(ss)} statements (expected one)")
    e, st = ss[0]
    if st["k"] != "update" or st["table"] != TABLE:
        return ctx.bad(rule, where, f"runs a {st['k']} of {st.get('table')}")
    sem = Sem()
    got = pred(sem, where_of(st))
    r, w = under(p.facts, got, formula.of_bool(numeq(fld(ROW, "id"), idt)))
    ctx.check(rule, where, r, lambda: "does not change exactly the addressed job: " + formula.show_asg(w))
    seen = set()
    for col, ex in st["sets"]:
        if col in seen:
            raise Bad(f"column {col} is assigned twice")
        seen.add(col)
        if col in ignore:
            continue
        for d, v in sem.cases(ex, "status" if col == "status" else None):
            if not d:
                continue
            v = setval(col, v)
            if col not in required:
                ctx.check(rule, where, same(p.facts, v, fld(ROW, col)) is True, f"also changes {col} := {short(v)}")
                continue
            pr = appended if required[col].__name__ == "appended" else required[col]
            ctx.check(rule, where, pr(p.facts, ROW, v), lambda: f"{col} := {short(v)} (expected {pr.text})")
    for col, pr in required.items():
        if col not in seen and col not in ignore:
            ctx.bad(rule, where, f"{col} is left unchanged (expected {pr.text})")


def transitions(ctx, fields=None, rule="pg-transition"):
    if not present(ctx):
        return
    allf = {f[0] for f in ADTS[JOB]["v"][0]["f"]} | {"uniqueness_key"}
    for op, (args, req) in TRANSITIONS.items():
        where = NAME + op

        def go(op=op, req=req, where=where, args=args):
            n = 0
            for p in paths(ctx, op, [SELF] + args):
                if p.result == "Ok":
                    n += 1
                    one_update(ctx, rule, where, p, ID, req, () if fields is None else tuple(allf - set(fields)))
            ctx.check(rule + "-reachable", where, n > 0 or None, "no success path")
        guard(ctx, rule, where, go)


def update(ctx, rule="pg-update"):
    if not present(ctx):
        return
    where = NAME + "update_job"

    def go():
        n = 0
        for p in paths(ctx, "update_job", [SELF, JOBARG]):
            if p.result == "Ok":
                n += 1
                one_update(ctx, rule, where, p, fld(JOBARG, "id"), UPDATE)
        ctx.check(rule + "-reachable", where, n > 0 or None, "no success path")
    guard(ctx, rule, where, go)


def errors(ctx, rule="pg-errors"):
    """a missing row is JobNotFound, a failed statement is an error, success means every statement succeeded"""
    if not present(ctx):
        return
    for op in list(TRANSITIONS) + ["update_job"]:
        where = NAME + op

        def go(op=op, where=where):
            idt = fld(JOBARG, "id") if op == "update_job" else ID
            nf = 0
            for p in paths(ctx, op, [SELF, JOBARG] if op == "update_job" else [SELF] + TRANSITIONS[op][0]):
                if p.kind != "ret" or p.result is None:
                    ctx.unk(rule, where, f"path ends with {p.kind} {short(p.val) if p.val is not None else ''}")
                    continue
                ev = [e for e in sqls(p.events) if e.a[1] == "sql::execute"]
                if len(ev) != 1:
                    ctx.unk(rule, where, f"{len(ev)} statements")
                    continue
                r = ev[0].a[3]
                n = APP("rows_affected", fld(dc(r, "Ok"), "0"))
                ran = variant_of(r, p.facts, RES)
                if p.result == "Ok":
                    ctx.check(rule, where, ran == "Ok", "reports success whatever the database answered")
                    ctx.check(rule, where, implied(p.facts, NOT(numeq(n, INT(0)))) is True or implied(p.facts, numcmp("Ge", n, INT(1))) is True, "reports success although no row may have been changed")
                    continue
                e = p.payload("Err")
                v = variant_of(e, p.facts, "rexecutor::backend::BackendError")
                if v == "JobNotFound":
                    nf += 1
                    ctx.check(rule, where, ran == "Ok" and True in (implied(p.facts, numcmp("Le", n, INT(0))), implied(p.facts, numcmp("Lt", n, INT(1)))), "reports a missing job although a row may have been changed, or the statement failed")
                    x = fld(dc(e, "JobNotFound"), "0")
                    ctx.check(rule, where, same(p.facts, x, idt), f"not-found error names {short(x)}")
                elif ran == "Ok":
                    ctx.check(rule, where, implied(p.facts, NOT(numeq(n, INT(0)))) is True and implied(p.facts, NOT(numeq(n, INT(1)))) is True or implied(p.facts, numcmp("Ge", n, INT(2))) is True, f"fails with {v} although exactly one row was changed, or hides that the job is missing")
            ctx.check(rule, where, nf > 0 or None, "no path reports a missing job")
        guard(ctx, rule, where, go)

    def rest(op, args, where):
        def go():
            n = 0
            for p in paths(ctx, op, args):
                if p.kind != "ret" or p.result != "Ok":
                    continue
                n += 1
                for e in sqls(p.events):
                    if e.a[1] == "sql::rollback":
                        continue
                    ctx.check(rule, where, variant_of(e.a[3], p.facts, RES) == "Ok", f"reports success whatever became of {e.a[1]}")
                ss = stmts(p.events)
                committed(ctx, rule, where, p, [e for e, st in ss if st["k"] != "select"])
                if op == "query" and len(ss) == 1:
                    rows_to_jobs(ctx, rule, where, p, ss[0][0], ss[0][1])
                    v = p.payload("Ok")
                    if v.op == "comp":
                        row = mk("elem", v.a[0], v.a[4])
                        for _, j in v.a[1]:
                            errs = dict(j.a[2]).get("errors") if j.op == "adt" and j.a[0] == JOB else None
                            if errs is not None:
                                errors_of(ctx, rule, where, errs, lambda x: x.op == "app" and x.a[0] == "col" and x.a[1][0] is row and colname(ss[0][1], x.a[1][1]) == "errors")
            ctx.check(rule, where, n > 0 or None, "no success path")
        guard(ctx, rule, where, go)
    rest("enqueue", [SELF, uniq.enq_job(OPT())], NAME + "enqueue plain")
    rest("enqueue", [SELF, uniq.enq_job(OPT(uniq.criteria(True, True, True, uniq.replace(uniq.FLAGS))))], NAME + "enqueue unique")
    rest("query", [SELF, dict(query.forms("quick"))["IdEquals"]], NAME + "query")
    rest("prune_jobs", [SELF, prune.spec("Complete", "MaxAge", "Only")], NAME + "prune_jobs")


def setup(ctx, rule="pg-setup"):
    """connecting, listening and migrating report their failures: success only after each of their database operations succeeded"""
    if not present(ctx):
        return

    def asked(e):
        """the database operation an await waits for, if it is one"""
        if e.a[0] != "await":
            return None
        if e.a[1].startswith(("pg::", "sql::")):
            return e.a[1]
        t = e.a[2][0] if e.a[1] == "opaque" and len(e.a[2]) == 1 else None
        return t.a[0] if t is not None and t.op == "res" and t.a[0].startswith("sqlx::") else None
    for m, need in (("from_db_url", ("connect", "pg::listen")), ("from_pool", ("pg::listen",)), ("run_migrations", ("run",))):
        where = NAME + m

        def go(m=m, need=need, where=where):
            k = ctx.method(PG, m)
            n = 0
            for p in ctx.run(k, [SELF if m == "run_migrations" else SYM("where")]) if k else []:
                if p.kind != "ret" or p.result != "Ok":
                    continue
                n += 1
                ops = [(asked(e), e) for e in p.events if asked(e)]
                fine = {o for o, e in ops if variant_of(e.a[3], p.facts, RES) == "Ok"}
                for o, e in ops:
                    if o == "sql::rollback":
                        continue
                    ctx.check(rule, where, o in fine, f"reports success whatever became of {o}")
                for x in need:
                    if not any(o == x or o.endswith("::" + x) for o, _ in ops):
                        opaque = any(e.a[0] in ("unk", "callv") for e in p.events)
                        ctx.check(rule, where, None if opaque else False, f"reports success without having called {x}")
            ctx.check(rule, where, n > 0 or None, "no success path")
        guard(ctx, rule, where, go)


# ---- queries ----------------------------------------------------------------------------------------------


def norm_status(d):
    """equalities of statuses by variants on both sides"""
    def f(x):
        return None
    out = []
    for c in d:
        acc = [frozenset()]
        for a, s in c:
            b = None
            if a.op == "eq" and any(y is fld(ROW, "status") for y in a.a[:2]):
                b = status_eq(a.a[0], a.a[1])
                if s == frozenset((0,)):
                    b = formula.neg(b)
            if a.op == "any":
                nb = norm_status(a.a[2])
                a = mk("any", a.a[0], a.a[1], frozenset(frozenset(x) for x in nb))
            acc = formula.conj_and(acc, b if b is not None else [frozenset([(a, s)])])
        out += acc
    return out


def pg_query(ctx, rule="pg-query"):
    if not present(ctx):
        return
    tops, loose = set(), set()
    for name, q in query.forms(ctx.tier):
        where = NAME + "query " + name

        def go(q=q, where=where):
            n = 0
            for p in paths(ctx, "query", [SELF, q]):
                if p.result != "Ok":
                    continue
                n += 1
                ev = [e for e in sqls(p.events)]
                if len(ev) != 1 or ev[0].a[1] != "sql::fetch_all":
                    ctx.check(rule, where, None if not any(e.a[1] in ("sql::fetch_one", "sql::fetch_optional") for e in ev) else False, f"runs {len(ev)} statements / does not fetch all rows")
                    continue
                st, ps = sql.parse(ev[0].a[2][0])
                if st["k"] != "select" or st["table"] != TABLE:
                    ctx.bad(rule, where, f"runs a {st['k']} of {st.get('table')}")
                    continue
                w = where_of(st)
                loose.update(ps.loose)
                if contains_rec(q):
                    pass
                tops.add(sql.level(w))
                if st["limit"] is not None or st["offset"] is not None:
                    ctx.bad(rule, where, "only part of the matching jobs is returned")
                if st["lock"] and "skip" in st["lock"]:
                    ctx.bad(rule, where, "jobs locked by someone else are left out of the answer")
                got = norm_status(pred(Sem(), w))
                want = norm_status([frozenset(full(c)) for c in query.den(q, ROW)])
                r, wi = under(p.facts, got, want)
                ctx.check(rule, where, r, lambda: "wrong answer for a job with " + formula.show_asg(wi))
                rows_to_jobs(ctx, rule, where, p, ev[0], st)
            ctx.check(rule, where, n > 0 or None, "no path answers the query")
        guard(ctx, rule, where, go)
    # texts of sub-queries are embedded as they are: the loosest operator must not be looser than its surroundings
    bad = ("or" in tops and ("and" in loose or "not" in loose)) or ("and" in tops and "not" in loose)
    ctx.check(rule, NAME + "query nesting", not bad, "a sub-query is embedded without parentheses, so that operators bind differently than the query says")


def contains_rec(q):
    return False


def colname(st, ix):
    cols = st["ret"] if "ret" in st and st["ret"] is not None else st.get("cols")
    if cols is None:
        return None
    names = [n.split(":")[0].strip().rstrip("!?") if n else None for _, n in cols]
    if ix.op == "int":
        if ix.a[0] >= len(names):
            raise Bad(f"column number {ix.a[0]} of {len(names)} is read")
        e = cols[ix.a[0]][0]
        return sql.unparen(e)[1] if sql.unparen(e)[0] == "col" else names[ix.a[0]]
    if ix.op == "str":
        if "*" in names:
            return ix.a[0]
        if ix.a[0] not in names:
            raise Bad(f"column {ix.a[0]!r} is read but not selected")
        e = cols[names.index(ix.a[0])][0]
        return sql.unparen(e)[1] if sql.unparen(e)[0] == "col" else None
    return None


def rows_to_jobs(ctx, rule, where, p, ev, st):
    """every returned row is in the answer"""
    res = mk("app", "rows", (fld(dc(ev.a[3], "Ok"), "0"),))
    v = p.payload("Ok")
    r = kept_all(v, res, p.facts)
    ctx.check(rule, where, r if r in (True, None) else False, lambda: f"not every row is in the answer: {r}")


def job_of_row(ctx, rule, where, st, row, j, conds):
    """the job j built from a row carries that row's columns"""
    if j.op != "adt" or j.a[0] != JOB:
        return ctx.unk(rule, where, f"the job is {short(j)}")

    def column(x, f):
        return x.op == "app" and x.a[0] == "col" and x.a[1][0] is row and colname(st, x.a[1][1]) == f
    for f, x in j.a[2]:
        w = f"{where} {f}"
        if f == "status":
            kn = [(a, s) for a, s in conds if a.op == "disc" and a.a[0].op == "app" and a.a[0].a[0] == "col" and column(a.a[0], "status")]
            if x.op == "adt" and len(kn) == 1:
                ctx.check(rule, w, kn[0][1] == frozenset((x.a[1],)), lambda: f"a job stored as {short(kn[0][1])} is reported {x.a[1]}")
            elif x.op == "adt":
                ctx.check(rule, w, False if not kn else None, f"is reported as {x.a[1]} whatever is stored")
            else:
                ctx.check(rule, w, True if column(x, f) else None, f"is {short(x)}")
        elif f in ("data", "metadata"):
            ok = column(x, f) or is_appn(x, "unjson") and column(x.a[1][0], f)
            ctx.check(rule, w, ok or (None if is_opaque(x) and not contains(x, lambda t: t.op == "app" and t.a[0] == "col") else False), f"is {short(x)}")
        elif f == "errors":
            errors_of(ctx, rule, w, x, lambda c: column(c, "errors"))
        else:
            ctx.check(rule, w, column(x, f) or (None if is_opaque(x) and not contains(x, lambda t: t.op == "app" and t.a[0] == "col") else False), f"is {short(x)}")


def is_appn(t, n):
    return t.op == "app" and t.a[0] == n


def errors_of(ctx, rule, where, v, is_col):
    if is_col(v):
        return ctx.ok(rule, where)
    if v.op != "comp" or not is_col(v.a[0]):
        return ctx.unk(rule, where, f"errors are {short(v)}")
    if v.a[3]:
        return ctx.bad(rule, where, "part of the recorded errors is dropped or reordered")
    e = mk("elem", v.a[0], v.a[4])
    for c, x in v.a[1]:
        if x.op != "adt":
            ctx.unk(rule, where, f"error {short(x)}")
            continue
        for f, y in x.a[2]:
            src = fld(APP("unjson", e), f)
            if f == "error_type":
                kn = [s for a, s in c if a.op == "disc" and a.a[0] is src]
                if y.op == "adt":
                    ok = bool(kn) and kn[0] == frozenset((y.a[1],)) and all(z is fld(dc(src, y.a[1]), n) for n, z in y.a[2])
                    ctx.check(rule, where, ok if kn else None, f"error type {short(kn[0]) if kn else ''} is reported as {short(y)}")
                else:
                    ctx.check(rule, where, True if y is src else None, f"error type is {short(y)}")
            else:
                ctx.check(rule, where, y is src or (None if not contains(y, lambda t: t is e) else False), f"{f} of a recorded error is {short(y)}")


# ---- pruning ----------------------------------------------------------------------------------------------


def pg_prune(ctx, rule="pg-prune"):
    if not present(ctx):
        return
    sel = {"cols"}
    for status in STATUSES:
        for by in ("MaxAge", "MaxLength"):
            for ex in ("Only", "Except"):
                where = f"{NAME}prune_jobs {status}/{by}/{ex}"

                def go(status=status, by=by, ex=ex, where=where):
                    n = 0
                    for p in paths(ctx, "prune_jobs", [SELF, prune.spec(status, by, ex)]):
                        if p.result != "Ok":
                            continue
                        n += 1
                        ss = stmts(p.events)
                        if len(ss) != 1:
                            ctx.check(rule, where, False if not ss else None, f"runs {len(ss)} statements")
                            continue
                        prune_one(ctx, rule, where, p, ss[0][1], status, by, ex)
                    ctx.check(rule, where, n > 0 or None, "no path prunes successfully")
                guard(ctx, rule, where, go)


def prune_one(ctx, rule, where, p, st, status, by, ex):
    if st["k"] != "delete" or st["table"] != TABLE:
        return ctx.bad(rule, where, f"runs a {st['k']} of {st.get('table')}")
    w = sql.unparen(where_of(st))
    sel = None
    if w[0] == "insel":
        c = sql.unparen(w[1])
        if c != ("col", "id") or len(w[2]["cols"]) != 1 or sql.unparen(w[2]["cols"][0][0]) != ("col", "id") or w[2]["table"] != TABLE:
            return ctx.unk(rule, where, "deletes rows selected in another way than by their id")
        sel = w[2]
        w = where_of(sel)
    sem = Sem()
    got = norm_status(pred(sem, w))
    fin = status in prune.FINISHED
    bv = mk("bv", 77)
    m = mk("any", prune.EXS, bv, frozenset([frozenset([(mkeq(fld(ROW, "executor"), mk("elem", prune.EXS, bv)).a[0], frozenset((1,)))])]))
    want = [frozenset([(m, frozenset((1 if ex == "Only" else 0,)))])]
    want = formula.conj_and(want, formula.of_bool(isin(mkdisc(fld(ROW, "status"), JS), (status,))))
    lim = sel["limit"] if sel else None
    off = sel["offset"] if sel else None
    if lim is not None:
        return ctx.bad(rule, where, "at most a given number of the jobs to remove is removed")
    if by == "MaxAge":
        if off is not None:
            return ctx.bad(rule, where, "some of the jobs older than the limit are kept")
        best = None
        ns = nows_of([mk("set", frozenset(c)) for c in got]) or [APP("now", INT(0))]
        for now in ns:
            b = lsub(now, prune.LIM) if fin else ladd(now, prune.LIM)
            r, wi = under(p.facts, got, formula.conj_and(want, formula.of_bool(numcmp("Lt" if fin else "Gt", fld(ROW, "scheduled_at"), b))))
            if best is None or r:
                best = (r, wi)
        return ctx.check(rule, where, best[0], lambda: "keeps or deletes the wrong job: " + formula.show_asg(best[1]))
    r, wi = under(p.facts, got, want)
    ctx.check(rule, where, r, lambda: "the jobs counted against the limit are not the ones the rule names: " + formula.show_asg(wi))
    if off is None:
        return ctx.bad(rule, where, "every job the rule names is deleted, whatever the limit")
    ctx.check(rule, where, same(p.facts, sem.value(off), prune.LIM), lambda: f"cuts after {short(sem.value(off))} jobs instead of the limit")
    o = sel["order"]
    if not o:
        return ctx.bad(rule, where, "jobs are kept in no particular order")
    c, d = sql.unparen(o[0][0]), o[0][1]
    want_d = "desc" if fin else "asc"
    ctx.check(rule, where, (c, d) == (("col", "scheduled_at"), want_d), f"jobs are kept in {d} order of {c[1] if len(c) > 1 else c}, expected {want_d} order of scheduled_at")
    if sel["lock"] and "skip" in sel["lock"]:
        ctx.unk(rule, where, "skips locked rows")


# ---- enqueue ----------------------------------------------------------------------------------------------

STORED = ("executor", "data", "metadata", "max_attempts", "scheduled_at", "priority", "tags")
DEFAULTED = {"status": "Scheduled"}


def row_writes(st):
    """[(column, expression)] of an INSERT of one row"""
    if st["k"] != "insert" or st["table"] != TABLE or len(st["rows"]) != 1:
        return None
    return list(zip(st["cols"], st["rows"][0]))


def insert_fields(ctx, rule, where, p, st, key=None):
    ws = row_writes(st)
    if ws is None:
        return ctx.bad(rule, where, f"runs a {st['k']} of {st.get('table')}")
    sem = Sem()
    d = {}
    for c, e in ws:
        if c in d:
            raise Bad(f"column {c} is given twice")
        d[c] = sem.value(e, "status" if c == "status" else None)
    for c in STORED:
        v = d.pop(c, None)
        ctx.check(rule, where, False if v is None else same(p.facts, v, fld(uniq.J, c)), lambda: f"{c} is stored as {short(v) if v is not None else 'the default'}")
    if key is not None:
        v = d.pop("uniqueness_key", None)
        if key:
            ok = v is not None and (v is OPT(uniq.KEY) or v is uniq.KEY)
        else:
            ok = v is None or is_none(v)
        ctx.check(rule, where, ok or (None if v is not None and is_opaque(v) else False), lambda: f"the uniqueness key is stored as {short(v) if v is not None else 'nothing'}")
    else:
        d.pop("uniqueness_key", None)
    schema = ddl_schema(ctx)
    for c in ("status", "attempt", "errors", "inserted_at") + NUL:
        if c in d:
            continue
        if c not in schema.cols:
            ctx.bad(rule, where, f"the migrations create no column {c}")
        else:
            ctx.check(rule, where, ddl.initial(c, schema.cols[c]["default"]), f"{c} of a new job starts as {schema.cols[c]['default']}")
    for c, v in d.items():
        if c == "status":
            ctx.check(rule, where, variant_lit(v) == "Scheduled", f"status is stored as {short(v)}")
        elif c == "attempt":
            ctx.check(rule, where, same(p.facts, v, INT(0)), f"attempt is stored as {short(v)}")
        elif c == "inserted_at":
            ctx.check(rule, where, is_now(v) or None, f"inserted_at is stored as {short(v)}")
        elif c in NUL:
            ctx.check(rule, where, is_none(v) or (None if is_opaque(v) else False), f"{c} is stored as {short(v)}")
        elif c == "errors":
            ctx.unk(rule, where, "errors given")
        else:
            ctx.bad(rule, where, f"{c} is stored as {short(v)}")


def returned_id(ctx, rule, where, p, e, st):
    """the id answered is the one of the row that statement e returned"""
    r = fld(dc(e.a[3], "Ok"), "0")
    if e.a[1] == "sql::fetch_optional":
        r = fld(dc(r, "Some"), "0")
    row = mk("app", "row", (r,))
    v = p.payload("Ok")
    if v.op == "app" and v.a[0] == "col":
        ctx.check(rule, where, v.a[1][0] is row and colname(st, v.a[1][1]) == "id", f"the id answered is {short(v)}")
    else:
        ctx.check(rule, where, None if is_opaque(v) else False, f"the id answered is {short(v)}")


def stored_fields(ctx, rule="pg-enqueue-fields"):
    if not present(ctx):
        return
    for name, cr in [("plain", OPT())] + [("unique " + uniq.cfg_name(*c), OPT(uniq.criteria(*c))) for c in uniq.CONFIGS]:
        where = NAME + "enqueue " + name

        def go(where=where, cr=cr):
            n = 0
            for p in paths(ctx, "enqueue", [SELF, uniq.enq_job(cr)]):
                if p.result != "Ok":
                    continue
                ins = [(e, st) for e, st in stmts(p.events) if st["k"] == "insert"]
                if len(ins) > 1:
                    ctx.bad(rule, where, "several rows are inserted")
                for e, st in ins:
                    n += 1
                    insert_fields(ctx, rule, where, p, st)
                    returned_id(ctx, rule, where, p, e, st)
            ctx.check(rule, where, n > 0 or None, "nothing is ever inserted")
        guard(ctx, rule, where, go)

    def conv():
        where = NAME + "query row"
        for p in paths(ctx, "query", [SELF, dict(query.forms("quick"))["IdEquals"]]):
            if p.result != "Ok":
                continue
            ev = sqls(p.events)
            if len(ev) != 1:
                continue
            st, _ = sql.parse(ev[0].a[2][0])
            v = p.payload("Ok")
            if v.op != "comp":
                ctx.unk(rule, where, f"answer {short(v)}")
                continue
            row = mk("elem", v.a[0], v.a[4])
            for c, j in v.a[1]:
                job_of_row(ctx, rule, where, st, row, j, c)
    guard(ctx, rule, NAME + "query row", conv)

    def claimed():
        where = NAME + "subscribe_ready_jobs row"
        s = Stream(ctx)
        for facts, events, e, st in s.claims():
            for v in s.handed(facts, events, e):
                row = mk("app", "row", (fld(dc(fld(dc(e.a[3], "Ok"), "0"), "Some"), "0"),)) if e.a[1] == "sql::fetch_optional" else mk("app", "row", (fld(dc(e.a[3], "Ok"), "0"),))
                job_of_row(ctx, rule, where, st, row, v, list(facts.items()))
    guard(ctx, rule, NAME + "subscribe_ready_jobs row", claimed)


def conflict_want(key, executor, dur):
    bv = mk("bv", 77)
    e = mk("elem", uniq.STS, bv)
    d = [frozenset([(mk("any", uniq.STS, bv, frozenset(frozenset(c) for c in status_eq(fld(ROW, "status"), e))), frozenset((1,)))])]
    if key:
        k = fld(ROW, "uniqueness_key")
        d = formula.conj_and(d, formula.conj_and(formula.of_bool(isin(mkdisc(k, OPTN), ("Some",))), formula.of_bool(numeq(uniq.KEY, fld(dc(k, "Some"), "0")))))
    if executor:
        d = formula.conj_and(d, formula.of_bool(mkeq(fld(uniq.J, "executor"), fld(ROW, "executor"))))
    if dur:
        s = fld(ROW, "scheduled_at")
        t = fld(uniq.J, "scheduled_at")
        d = formula.conj_and(d, formula.conj_and(formula.of_bool(numcmp("Ge", ladd(lsub(s, t), uniq.DUR), INT(0))), formula.of_bool(numcmp("Ge", ladd(lsub(t, s), uniq.DUR), INT(0)))))
    return d


def unique(ctx, rule, what):
    """what: 'atomic' | 'conflict' | 'key'"""
    if not present(ctx):
        return
    for cfg in uniq.CONFIGS:
        where = f"{NAME}enqueue {uniq.cfg_name(*cfg)}"

        def go(cfg=cfg, where=where):
            n = 0
            for p in paths(ctx, "enqueue", [SELF, uniq.enq_job(OPT(uniq.criteria(*cfg)))]):
                if p.result != "Ok":
                    continue
                n += 1
                unique_path(ctx, rule, where, p, cfg, what)
            ctx.check(rule, where, n > 0 or None, "no success path")
        guard(ctx, rule, where, go)


def unique_path(ctx, rule, where, p, cfg, what):
    key, executor, dur = cfg
    ev = sqls(p.events)
    begins = [e for e in ev if e.a[1] == "sql::begin"]
    ss = stmts(p.events)
    look = [(e, st) for e, st in ss if st["k"] == "select" and st["table"] == TABLE]
    locks = [(e, st) for e, st in ss if st["k"] == "select" and st["table"] is None]
    ins = [(e, st) for e, st in ss if st["k"] == "insert"]
    if len(look) != 1:
        return ctx.check(rule, where, False if not look else None, f"{len(look)} lookups of a conflicting job")
    le, ls = look[0]
    found = fld(dc(le.a[3], "Ok"), "0")
    has = variant_of(found, p.facts, OPTN)
    if what == "conflict":
        got = norm_status(pred(Sem(), where_of(ls)))
        r, w = under(p.facts, got, conflict_want(*cfg))
        ctx.check(rule, where, r, lambda: "the lookup finds the wrong jobs: " + formula.show_asg(w))
        ctx.check(rule, where, ls["offset"] is None, "the lookup skips jobs")
        ctx.check(rule, where, not (ls["lock"] and "skip" in ls["lock"]), "the lookup skips locked jobs")
        return
    if what == "key":
        for e, st in ins:
            ws = dict(row_writes(st) or [])
            v = Sem().value(ws["uniqueness_key"]) if "uniqueness_key" in ws else None
            ok = (v is OPT(uniq.KEY) or v is uniq.KEY) if key else (v is None or is_none(v))
            ctx.check(rule, where, ok or (None if v is not None and is_opaque(v) else False), lambda: f"the uniqueness key is stored as {short(v) if v is not None else 'nothing'}")
        return
    # atomic
    if len(begins) != 1:
        return ctx.check(rule, where, False if not begins else None, f"{len(begins)} transactions")
    tx = fld(dc(begins[0].a[3], "Ok"), "0")
    idx = {e: i for i, e in enumerate(ev)}
    for e, st in ss:
        ctx.check(rule, where, e.a[2][1] is tx, "a statement of the unique enqueue runs outside its transaction")
    lk = [e for e, st in locks if is_xact_lock(st)]
    before = [e for e in lk if idx[e] < idx[le]]
    ctx.check(rule, where, bool(before) or (None if any(st["k"] not in ("select", "insert", "update", "delete") for _, st in ss) else False), "looks for a conflicting job without holding a lock that excludes the same enqueue running at the same time")
    for e, st in locks:
        if e in before:
            lock_key(ctx, rule, where, Sem().value(sql.unparen(st["cols"][0][0])[2][0]), executor)
    writes = [(e, st) for e, st in ss if st["k"] in ("insert", "update", "delete")]
    for e, st in writes:
        ctx.check(rule, where, idx[e] > idx[le], "changes jobs before looking for a conflicting one")
    ends = [e for e in ev if e.a[1] in ("sql::commit", "sql::rollback")]
    if writes:
        ok = [e for e in ends if e.a[1] == "sql::commit" and e.a[2][0] is tx and idx[e] > max(idx[w] for w, _ in writes)]
        ctx.check(rule, where, bool(ok), "reports success although the change is not committed")
    if has == "None":
        ctx.check(rule, where, len(ins) == 1, f"no conflicting job exists but {len(ins)} jobs are inserted")
        for e, st in ins:
            returned_id(ctx, rule, where, p, e, st)
    elif has == "Some":
        ctx.check(rule, where, not ins, "a conflicting job exists and another one is inserted")
        returned_id(ctx, rule, where, p, le, ls)
    else:
        ctx.check(rule, where, False if ins else None, "inserts whether or not a conflicting job exists")


def is_xact_lock(st):
    if len(st["cols"]) != 1:
        return False
    e = sql.unparen(st["cols"][0][0])
    return e[0] == "fn" and e[1] == "pg_advisory_xact_lock" and len(e[2]) == 1


def lock_key(ctx, rule, where, v, executor):
    """enqueues with the same criteria must agree on the lock"""
    bad = []
    for x in subterms(v):
        if x.op == "fld" and x.a[0] is uniq.J and not (x.a[1] == "executor" and executor):
            bad.append(x.a[1])
        if is_now(x):
            bad.append("the time")
    ctx.check(rule, where, not bad, f"the lock depends on {', '.join(sorted(set(bad)))}, which two enqueues with the same criteria need not share")


def resolution(ctx, rule="pg-conflict-resolution"):
    if not present(ctx):
        return
    from itertools import combinations
    sets = [()] + [(f,) for f in uniq.FLAGS] + [uniq.FLAGS] + list(combinations(uniq.FLAGS, 2))
    runs = [("do-nothing", None)] + [("replace(" + ",".join(s) + ")", s) for s in sets if s]
    for name, flags in runs:
        where = NAME + "enqueue " + name

        def go(name=name, flags=flags, where=where):
            cr = uniq.criteria(True, True, True, uniq.replace(flags) if flags else None)
            nu = n = 0
            for p in paths(ctx, "enqueue", [SELF, uniq.enq_job(OPT(cr))]):
                if p.result != "Ok":
                    continue
                ss = stmts(p.events)
                look = [(e, st) for e, st in ss if st["k"] == "select" and st["table"] == TABLE]
                if len(look) != 1:
                    ctx.unk(rule, where, f"{len(look)} lookups")
                    continue
                le, ls = look[0]
                found = fld(dc(le.a[3], "Ok"), "0")
                if variant_of(found, p.facts, OPTN) != "Some":
                    continue
                n += 1
                row = mk("app", "row", (fld(dc(found, "Some"), "0"),))
                ups = [(e, st) for e, st in ss if st["k"] in ("update", "delete")]
                may = status_allowed(p.facts, row, ls)
                if not flags:
                    ctx.check(rule, where, not ups, "changes the conflicting job although nothing is to be replaced")
                    continue
                if may is None:
                    ctx.unk(rule, where, "cannot tell whether the conflicting job's status is one to replace for")
                    continue
                if may == "mixed":
                    ctx.bad(rule, where, ("changes" if ups else "does not change") + " the conflicting job whether or not its status is one to replace for")
                    continue
                if not may:
                    ctx.check(rule, where, not ups, "changes a conflicting job whose status is not one to replace for")
                    continue
                nu += 1
                if len(ups) != 1 or ups[0][1]["k"] != "update":
                    ctx.check(rule, where, False, f"{len(ups)} changes of the conflicting job")
                    continue
                replaced(ctx, rule, where, p, ups[0][1], row, ls, flags)
                committed(ctx, rule, where, p, [ups[0][0]])
            ctx.check(rule, where, n > 0 or None, "no path meets a conflicting job")
            if flags:
                ctx.check(rule, where, nu > 0 or None, "no path replaces anything")
        guard(ctx, rule, where, go)


def committed(ctx, rule, where, p, writes):
    """writes made inside a transaction are committed before success is reported"""
    ev = sqls(p.events)
    for w in writes:
        bs = [e for e in ev if e.a[1] == "sql::begin" and e.a[3].op == "res" and w.a[2][1] is fld(dc(e.a[3], "Ok"), "0")]
        if not bs:
            continue
        tx = w.a[2][1]
        ctx.check(rule, where, any(e.a[1] == "sql::commit" and e.a[2][0] is tx for e in ev[ev.index(w):]), "reports success although the change is not committed")


def status_allowed(facts, row, ls):
    """does the path know that the found job's status is (not) in for_statuses?"""
    bv = mk("bv", 77)
    e = mk("elem", uniq.FOR, bv)
    col = None
    for a in facts:
        for x in subterms(a):
            if x.op == "app" and x.a[0] == "col" and x.a[1][0] is row and colname(ls, x.a[1][1]) == "status":
                col = x
    if col is None:
        return None
    PS = "rexecutor_sqlx::types::JobStatus"
    d = []
    for s in STATUSES:
        d += formula.conj_and(formula.of_bool(isin(mkdisc(col, PS), (s,))), formula.of_bool(isin(mkdisc(e, JS), (s,))))
    m = mk("any", uniq.FOR, bv, frozenset(frozenset(c) for c in d))
    f = [frozenset((a, s) for a, s in facts.items() if a.op in ("any", "disc") and contains(a, lambda t: t is uniq.FOR or t is col))]
    rs = []
    for v in (1, 0):
        r, w = formula.implies(f, [frozenset([(m, frozenset((v,)))])])
        if r:
            return bool(v)
        rs.append(r)
    # the path looks at the statuses to replace for, but not at the right combination of them
    if rs == [False, False] and any(a.op == "any" and a.a[0] is uniq.FOR and contains(a, lambda t: t is col) for c in f for a, _ in c):
        return "mixed"
    return None


def replaced(ctx, rule, where, p, st, row, ls, flags):
    sem = Sem()
    r, w = None, None
    ids = [x for x in {y for c in pred(sem, where_of(st)) for a, _ in c for y in subterms(a)} if x.op == "app" and x.a[0] == "col" and x.a[1][0] is row and colname(ls, x.a[1][1]) == "id"]
    if len(ids) == 1:
        r, w = under({}, pred(sem, where_of(st)), formula.of_bool(numeq(fld(ROW, "id"), ids[0])))
    else:
        r, w = False, {}
    ctx.check(rule, where, r, "does not change exactly the conflicting job")
    seen = set()
    for c, e in st["sets"]:
        if c in seen:
            raise Bad(f"column {c} is assigned twice")
        seen.add(c)
        v = sem.value(e)
        if c not in flags:
            ctx.bad(rule, where, f"replaces {c}, which is not to be replaced")
        else:
            ctx.check(rule, where, same(p.facts, v, fld(uniq.J, c)), lambda: f"{c} is replaced by {short(v)}")
    for f in flags:
        ctx.check(rule, where, f in seen, f"{f} is not replaced")


# ---- the stream of ready jobs -------------------------------------------------------------------------------


class Stream:
    def __init__(self, ctx):
        self.subs, self.paths = [], []
        k = ctx.method(PG, "subscribe_ready_jobs", BACKEND)
        for p in ctx.run(k, [SELF, EX]) if k else []:
            if p.kind != "ret":
                continue
            self.subs.append(p)
            if p.val is None or p.val.op != "gen":
                raise Undecided(f"the ready-job stream is {short(p.val) if p.val is not None else p.val}")
            ck = ("pgstream", p.out)
            if ck not in ctx.cache:
                ctx.cache[ck] = ctx.run_more(p, p.val.a[0])
            self.paths += ctx.cache[ck]
        if not self.paths:
            raise Undecided("no path creates a stream")

    def segments(self):
        out = []
        for p in self.paths:
            out += segs(p.facts, p.events, ())
        return out

    def claims(self):
        """[(facts, events, event, statement)]: statements that mark a job executing"""
        out = []
        for facts, events, where in self.segments():
            for e, st in stmts(events):
                if st["k"] == "update" and any(c == "status" and any(variant_lit(v) == "Executing" for _, v in Sem().cases(x, "status")) for c, x in st["sets"]):
                    out.append((facts, events, e, st))
        return out

    def handed(self, facts, events, e):
        """jobs yielded after the claim e"""
        i = events.index(e)
        out = []
        for y in events[i + 1:]:
            if y.a[0] == "yield" and variant_of(y.a[1], facts, RES) == "Ok":
                v = fld(dc(y.a[1], "Ok"), "0")
                out.append(v)
        return out


WHERE = NAME + "subscribe_ready_jobs"


def chosen(st):
    """the sub-select that picks the row to claim, or None"""
    w = sql.unparen(where_of(st))
    if w[0] == "insel" and sql.unparen(w[1]) == ("col", "id"):
        return w[2]
    if w[0] == "cmp" and w[1] == "=" and sql.unparen(w[2]) == ("col", "id") and w[3][0] == "sub":
        return w[3][1]
    return None


def claim(ctx, rule, what):
    if not present(ctx):
        return

    def go():
        s = Stream(ctx)
        cl = s.claims()
        if not cl:
            return ctx.unk(rule, WHERE, "no statement marks a job executing")
        done = set()
        for facts, events, e, st in cl:
            sel = chosen(st)
            if what == "writes":
                if e not in done:
                    done.add(e)
                    claim_sets(ctx, rule, st, None)
                continue
            if what == "attempt":
                if e not in done:
                    done.add(e)
                    claim_sets(ctx, rule, st, "attempt")
                continue
            if sel is None or sel["table"] != TABLE or len(sel["cols"]) != 1 or sql.unparen(sel["cols"][0][0]) != ("col", "id"):
                ctx.unk(rule, WHERE, "the row to claim is not picked by a sub-select")
                continue
            if what == "atomic":
                if e not in done:
                    done.add(e)
                    ctx.check(rule, WHERE, bool(sel["lock"]) and sel["lock"].startswith("update"), "the row to claim is picked without locking it: two workers may claim the same job")
                    got = pred(Sem(), where_of(sel))
                    r, w = formula.implies(got, formula.of_bool(isin(mkdisc(fld(ROW, "status"), JS), ("Scheduled", "Retryable"))))
                    ctx.check(rule, WHERE, r, lambda: "a job that is not runnable is claimed: " + formula.show_asg(w))
                    ctx.check(rule, WHERE, sel["limit"] is not None and Sem().value(sel["limit"]) is INT(1), "more than one job is marked executing by one claim")
                    ctx.check(rule, WHERE, st["ret"] is not None, "the claimed job is not returned by the claim itself")
                if variant_of(e.a[3], facts, RES) == "Ok" and e.a[1] == "sql::fetch_optional" and variant_of(fld(dc(e.a[3], "Ok"), "0"), facts, OPTN) == "Some":
                    ys = [y for y in events[events.index(e) + 1:] if y.a[0] == "yield"]
                    ctx.check(rule, WHERE, len(ys) == 1, f"a claimed job is handed out {len(ys)} times")
            elif what == "eligible" and e not in done:
                done.add(e)
                got = pred(Sem(), where_of(sel))
                r, w = formula.equiv(got, runnable(ROW, EX, NOWT))
                if r is False:
                    r2, _ = formula.equiv(got, runnable(ROW, EX, NOWT, strict=False))
                    r = True if r2 else r
                ctx.check(rule, WHERE, r, lambda: "the claim considers the wrong jobs: " + formula.show_asg(w))
            elif what == "order" and e not in done:
                done.add(e)
                o = [(sql.unparen(x), d) for x, d in sel["order"]]
                ctx.check(rule, WHERE, o[:2] == [(("col", "priority"), "asc"), (("col", "scheduled_at"), "asc")], f"jobs are claimed in the order {o}")
        if what == "atomic":
            for facts, events, _ in s.segments():
                for y in events:
                    if y.a[0] == "yield" and variant_of(y.a[1], facts, RES) == "Ok":
                        ctx.check(rule, WHERE, any(ev is events or ev == events for _, ev, _, _ in cl), "hands out a job without having marked it executing")
    guard(ctx, rule, WHERE, go)


def claim_sets(ctx, rule, st, only):
    sem = Sem()
    want = {"status": lambda v: variant_lit(v) == "Executing", "attempt": lambda v: same({}, v, ladd(fld(ROW, "attempt"), INT(1))), "attempted_at": lambda v: is_now(v)}
    got = dict(st["sets"])
    for c, f in want.items():
        if only and c != only:
            continue
        if c not in got:
            ctx.bad(rule, WHERE, f"claiming leaves {c} unchanged")
            continue
        v = sem.value(got[c], "status" if c == "status" else None)
        ctx.check(rule, WHERE, f(v), f"claiming sets {c} := {short(v)}")
    for c in got:
        if not only and c not in want:
            ctx.bad(rule, WHERE, f"claiming also changes {c}")


def waits(ctx, rule="pg-wait"):
    """between looks at the database the stream listens to its own channel and never sleeps past the next due job"""
    if not present(ctx):
        return

    def go():
        s = Stream(ctx)
        chans = set()
        for p in s.subs:
            locks = {e.a[1] for e in p.events if e.a[0] == "rel" and e.a[2] == "w"}
            got = None
            for l in locks:
                got = memclaim.registered(ctx, rule, WHERE, l, p) or got
            if got is None:
                ctx.bad(rule, WHERE, "the stream is returned before its notification channel is registered")
            else:
                chans.add(got)
                ctx.ok(rule, WHERE)
        for p in s.paths:
            ctx.check(rule, WHERE, p.kind == "div" or (None if p.kind != "ret" else False), "the stream of ready jobs can end")
        n = 0
        for facts, events, _ in s.segments():
            for i, e, alone in memclaim.pauses(events):
                n += 1
                if alone:
                    ctx.bad(rule, WHERE, f"waits for {e.a[1]} alone")
                    continue
                one_wait(ctx, rule, facts, events[:i], e, chans)
        ctx.check(rule, WHERE, n > 0 or None, "no wait found in the stream")
    guard(ctx, rule, WHERE, go)


def tried(ctx, facts, before, where, rule="pg-claim-tried"):
    """before a wait the stream has sent its claiming statement, or has read an earliest runnable job that is not due yet, or none"""
    sent = stmts(before)
    if any(st["k"] == "update" and st["table"] == TABLE for x, st in sent):
        return ctx.ok(rule, where)
    best = None if any(x.a[0] in ("loop", "unk", "callv") for x in before) else False
    for x, st in sent:
        if st["k"] != "select" or st["table"] != TABLE:
            continue
        if x.a[1] != "sql::fetch_optional" or not formula.implies(runnable(ROW, EX), pred(Sem(), where_of(st)))[0]:
            best = None
            continue
        f = fld(dc(x.a[3], "Ok"), "0")
        has = variant_of(f, facts, OPTN)
        t = mk("app", "col", (mk("app", "row", (fld(dc(f, "Some"), "0"),)), INT(0)))
        if has == "None" or True in [implied(facts, numcmp("Ge", t, now)) for now in nows_of(list(facts), list(before))]:
            return ctx.ok(rule, where)
        if colname(st, INT(0)) != "scheduled_at":
            best = None
    ctx.check(rule, where, best, "waits although a due job of its executor may be stored that it has not tried to claim")


def attempted(ctx, rule="pg-claim-tried"):
    if not present(ctx):
        return

    def go():
        for facts, events, _ in Stream(ctx).segments():
            for i, e, alone in memclaim.pauses(events):
                tried(ctx, facts, events[:i], WHERE + " wait", rule)
    guard(ctx, rule, WHERE, go)


def one_wait(ctx, rule, facts, before, e, chans):
    where = WHERE + " wait"
    futs = e.a[1]
    if any(f.op != "fut" for f in futs):
        return ctx.unk(rule, where, f"waits for {short(e)}")
    recv = [f for f in futs if f.a[0] == "recv"]
    sleep = [f for f in futs if f.a[0] == "sleep"]
    ctx.check(rule, where, any(contains(f, lambda t: t.op == "chrx" and t.a[0] in chans) for f in recv), "does not listen to its own notification channel while waiting")
    if not sleep:
        return ctx.bad(rule, where, "waits for a notification without a time bound")
    d = sleep[0].a[1][0]
    ctx.check(rule, where, implied(facts, numcmp("Le", d, INT(30 * 1000 * MS))) if d.op != "int" else d.a[0] <= 30 * 1000 * MS, f"may wait longer than thirty seconds: {short(d)}")
    if d.op == "int" and d.a[0] <= 100 * MS:
        return ctx.ok(rule, where)
    looks = [(x, st) for x, st in stmts(before) if st["k"] == "select" and st["table"] == TABLE]
    if not looks:
        return ctx.check(rule, where, None if any(x.a[0] in ("loop", "unk", "callv") for x in before) else False, "waits without having looked at the stored jobs since the last wait")
    x, st = looks[-1]
    if memclaim.drained(before[before.index(x):], chans):
        ctx.bad(rule, where, "takes notifications out of its channel after looking at the stored jobs, and waits without looking again")
    cover, w = formula.implies(runnable(ROW, EX), pred(Sem(), where_of(st)))
    ctx.check(rule, where, cover, lambda: "the look before waiting misses a runnable job: " + formula.show_asg(w))
    if x.a[1] != "sql::fetch_optional":
        return ctx.unk(rule, where, "look by another way than fetch_optional")
    f = fld(dc(x.a[3], "Ok"), "0")
    has = variant_of(f, facts, OPTN)
    if has == "None":
        return ctx.ok(rule, where)
    o = st["order"]
    ctx.check(rule, where, bool(o) and (sql.unparen(o[0][0]), o[0][1]) == (("col", "scheduled_at"), "asc"), "the look before waiting does not find the job that is due first")
    if has != "Some":
        return ctx.check(rule, where, False, f"waits {short(d)} whether or not a job is due earlier")
    row = mk("app", "row", (fld(dc(f, "Some"), "0"),))
    t = mk("app", "col", (row, INT(0)))
    if colname(st, INT(0)) != "scheduled_at":
        return ctx.unk(rule, where, "the look does not return the due time first")
    rs = [implied(facts, numcmp("Le", d, lsub(t, now))) for now in nows_of(list(facts), [d])]
    ctx.check(rule, where, True in rs or (None if is_opaque(d) and not contains(d, lambda y: y is t) else False), f"may wait {short(d)} although a job is due earlier")


# ---- texts of error types -----------------------------------------------------------------------------------

ETY = "rexecutor_sqlx::types::ErrorType"


def written(p):
    """the one string a Display implementation writes, or None"""
    ev = [e for e in p.events if e.a[0] == "fmt"]
    if len(ev) != 1:
        return None
    n, a = ev[0].a[1], ev[0].a[2]
    if n == "write_str" and len(a) == 2:
        return a[1]
    if n in ("write_fmt", "pad") and len(a) == 2:
        x = a[1]
        if x.op == "str" or n == "pad":
            return x
        if x.op == "app" and x.a[0] == "fmt" and len(x.a[1]) == 1 and x.a[1][0].op == "str":
            return x.a[1][0]
        one = models.fmt_single(x)
        return one
    return None


def error_types(ctx, rule="pg-error-type"):
    """each kind of failure is written under its own name, the one it is read back by"""
    if not present(ctx):
        return
    k = method_key(ctx.F, ETY, "fmt", "std::fmt::Display")
    if k is None:
        return ctx.unk(rule, "ErrorType", "no Display implementation in reach")
    for v, want in (("Panic", STR("panic")), ("Timeout", STR("timeout")), ("Cancelled", STR("cancelled")), ("Other", SYM("s"))):
        def go(v=v, want=want):
            val = ADT(ETY, v, (("0", SYM("s")),) if v == "Other" else ())
            for p in ctx.run(k, [val, SYM("f")], await_=False):
                if p.kind != "ret":
                    ctx.unk(rule, "ErrorType::" + v, f"ends with {p.kind}")
                    continue
                w = written(p)
                ctx.check(rule, "ErrorType::" + v, None if w is None else w is want or (None if is_opaque(w) and w.op != "str" else False), f"is stored as {short(w) if w is not None else '?'}")
        guard(ctx, rule, "ErrorType::" + v, go)


# ---- notifications: triggers and the listener ---------------------------------------------------------------


def ddl_schema(ctx):
    if "ddl" not in ctx.cache:
        ctx.cache["ddl"] = ddl.Schema(os.environ.get("VP_REPO") or "/repo")
    return ctx.cache["ddl"]


class Subs:
    def __init__(self, lock):
        self.l = lock

    def sublock(self, _):
        return self.l


def listens(ctx, rule="pg-listen"):
    """every row that becomes runnable is announced, and every announcement is passed on to all streams of its executor"""
    if not present(ctx):
        return
    where = NAME + "from_pool"
    chans = set()

    def trig():
        s = ddl_schema(ctx)
        n = ddl.notifications(s)
        for k in ("insert", "update"):
            w = f"migrations: {k} of a job"
            sts = set().union(*[x[0] for x in n[k]]) if n[k] else set()
            ctx.check(rule, w, {"scheduled", "retryable"} <= sts, f"rows becoming {sorted({'scheduled', 'retryable'} - sts)} are not announced")
            for x in n[k]:
                if x[1] is None:
                    continue
                chans.add(x[1])
                ctx.check(rule, w, x[2].get("executor") == "executor" and x[2].get("scheduled_at") == "scheduled_at", f"the announcement says {x[2]}")
    guard(ctx, rule, "migrations", trig)

    def go():
        k = ctx.method(PG, "from_pool")
        n = 0
        for p in ctx.run(k, [SYM("pool")]) if k else []:
            if p.result != "Ok":
                continue
            n += 1
            be = p.payload("Ok")
            locks = [v for _, v in be.a[2] if v.op == "newlock"] if be.op == "adt" else []
            if len(locks) != 1:
                raise Undecided("where the streams are registered")
            heard = {e.a[2][1].a[0] for e in p.events if e.a[0] == "await" and e.a[1] == "pg::listen" and variant_of(e.a[3], p.facts, RES) == "Ok" and len(e.a[2]) > 1 and e.a[2][1].op == "str"}
            if any(e.a[0] == "await" and e.a[1] not in ("pg::connect_with", "pg::listen", "pg::connect") and e.a[1].startswith("pg::") for e in p.events) and not heard:
                raise Undecided("how the backend listens")
            for c in chans:
                ctx.check(rule, where, c in heard, f"announcements are sent on {c!r} but the backend listens to {sorted(heard)}")
            tasks = [e for e in p.events if e.a[0] == "spawn" and any("pg::recv" in str(x.a[1]) for s in e.a[3] for _, ev, _ in segs({}, s.a[2], ()) for x in ev if x.a[0] == "await")]
            if not tasks:
                ctx.check(rule, where, None if any(e.a[0] in ("unk", "callv") for e in p.events) else False, "nothing receives the announcements")
            for t in tasks:
                received(ctx, rule, where, t, locks[0])
        ctx.check(rule, where, n > 0 or None, "no path creates the backend")
    guard(ctx, rule, where, go)


def received(ctx, rule, where, task, lock):
    loops = [e for s in task.a[3] for e in s.a[2] if e.a[0] == "loop" and any(x.a[0] == "await" and x.a[1] == "pg::recv" for t in e.a[2] for x in t.a[2])]
    if not loops:
        return ctx.bad(rule, where, "only one announcement is received")
    for s in task.a[3]:
        if s.a[0] == "panic":
            continue  # an announcement that is not what the trigger sends
        rs = [x.a[3] for x in s.a[2] if x.a[0] == "await" and x.a[1] == "pg::recv"]
        f = dict(s.a[1])
        if rs and variant_of(rs[-1], f, RES) == "Ok":
            ctx.bad(rule, where, "the listener ends after an announcement")
        else:
            ctx.ok(rule, where)
    for lp in loops:
        for t in lp.a[2]:
            rs = [(i, x) for i, x in enumerate(t.a[2]) if x.a[0] == "await" and x.a[1] == "pg::recv"]
            f = dict(t.a[1])
            if not rs or variant_of(rs[-1][1].a[3], f, RES) != "Ok":
                continue
            i, r = rs[-1]
            payload = mk("app", "payload", (fld(dc(r.a[3], "Ok"), "0"),))
            if any(a.op == "ok" and a.a[0] == "from_str" and v == frozenset((0,)) for a, v in f.items()):
                continue
            ex = fld(mk("app", "unjson", (payload,)), "executor")
            res = memclaim.sends_to_all(Subs(lock), t.a[2], ex, f, i)
            if res is False and not any(x.op == "data" and x.a[0] is lock for e in t.a[2] for x in subterms(e)):
                ctx.bad(rule, where, "announcements are not passed on to the registered streams")
            else:
                ctx.check(rule, where, res, "not every stream registered for the announced executor is woken")
