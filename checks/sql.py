"""A parser for the SQL the Postgres backend sends, and its meaning as formulas over one row.

The statement texts come from the analysed program (engine/sqlx.py): text pieces, bound values, text appended once per
element of a collection, text produced by a recursive call.  Anything outside the grammar below is Undecided."""
import re

from .core import *

ROW = SYM("row")
JS = "rexecutor::job::JobStatus"
OPTN = "std::option::Option"
TABLE = "rexecutor_jobs"
NULLABLE = ("uniqueness_key", "attempted_at", "completed_at", "cancelled_at", "discarded_at", "attempted_by")
TIMES = ("inserted_at", "scheduled_at", "attempted_at", "completed_at", "cancelled_at", "discarded_at")
INTS = ("id", "attempt", "max_attempts", "priority", "uniqueness_key")
COLS = ("id", "status", "executor", "data", "metadata", "tags", "errors") + TIMES + INTS + ("attempted_by",)
KW = {"select", "from", "where", "update", "set", "insert", "into", "values", "delete", "returning", "and", "or", "not", "in", "any", "some", "all",
      "order", "by", "asc", "desc", "limit", "offset", "for", "skip", "locked", "nowait", "case", "when", "then", "else", "end", "null", "true", "false",
      "is", "as", "between", "interval", "on", "conflict", "array", "nulls", "first", "last", "key", "share", "exists", "distinct", "with", "union", "having", "group", "like"}

TOK = re.compile(r"""\s+|--[^\n]*|(?P<str>'(?:[^']|'')*')|(?P<q>"[^"]*")|(?P<num>\d+(?:\.\d+)?)|(?P<par>\$\d+)|(?P<sp>⟦\d+⟧)|(?P<id>[A-Za-z_][A-Za-z_0-9$]*)|(?P<op>::|<=|>=|<>|!=|@>|<@|&&|\|\||[-+*/%<>=(),.;\[\]])""")


class Bad(Exception):
    """the text is not a statement Postgres would accept as intended"""


def flatten(pieces):
    """text with $n for bound values and ⟦i⟧ for the rest -> (text, {n: value}, [special pieces])"""
    out, binds, sp = [], {}, []
    for f in pieces:
        k = f.a[0]
        if k == "sql":
            out.append(f.a[1])
        elif k == "bind":
            binds[len(binds) + 1] = f.a[1]
            out.append(f"${len(binds)}")
        elif k in ("rec", "rep"):
            sp.append(f)
            out.append(f"⟦{len(sp) - 1}⟧")
        else:
            raise Undecided(f"statement text {short(f)}")
    return "".join(out), binds, sp


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise Undecided(f"unexpected character in SQL at: {text[pos:pos + 40]!r}")
        pos = m.end()
        k = m.lastgroup
        if k is None:
            continue
        s = m.group(k)
        if k == "id" and s.lower() in KW:
            out.append(("kw", s.lower()))
        elif k == "id":
            out.append(("id", s.lower()))
        elif k == "q":
            out.append(("q", s[1:-1]))
        elif k == "str":
            out.append(("str", s[1:-1].replace("''", "'")))
        elif k == "num":
            out.append(("num", s))
        elif k == "par":
            out.append(("par", int(s[1:])))
        elif k == "sp":
            out.append(("sp", int(s[1:-1])))
        else:
            out.append(("op", s))
    return out


class Parser:
    def __init__(self, pieces, args=()):
        text, binds, self.sp = flatten(pieces)
        self.text = text
        self.binds = dict(binds) if binds else {i + 1: a for i, a in enumerate(args)}
        if binds and args:
            raise Undecided("bound values mixed with arguments")
        self.t = tokens(text)
        self.i = 0
        self.loose = []  # contexts in which an unparenthesised recursive text appears: "and" | "not" | "top" | ...

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def kw(self, *ws):
        for n, w in enumerate(ws):
            if self.peek(n) != ("kw", w):
                return False
        self.i += len(ws)
        return True

    def op(self, s):
        if self.peek() == ("op", s):
            self.i += 1
            return True
        return False

    def need(self, ok, what):
        if not ok:
            raise Undecided(f"expected {what} before: {' '.join(str(x[1]) for x in self.t[self.i:self.i + 6])!r} in {self.text[:200]!r}")

    def name(self):
        k, v = self.next()
        if k not in ("id", "q", "kw"):
            self.i -= 1
            self.need(False, "a name")
        return v

    def table(self):
        n = self.name()
        if self.op("."):
            n = self.name()
        return n

    # ---- statements
    def statement(self):
        s = self.stmt1()
        self.op(";")
        if self.peek()[0] != "end":
            self.need(False, "the end of the statement")
        return s

    def stmt1(self):
        if self.peek() == ("kw", "select"):
            return self.select()
        if self.kw("update"):
            t = self.table()
            if self.kw("as"):
                self.name()
            self.need(self.kw("set"), "SET")
            sets = []
            while True:
                c = self.name()
                self.need(self.op("="), "=")
                sets.append((c, self.expr()))
                if not self.op(","):
                    break
            w = self.expr() if self.kw("where") else None
            return {"k": "update", "table": t, "sets": sets, "where": w, "ret": self.returning()}
        if self.kw("insert"):
            self.need(self.kw("into"), "INTO")
            t = self.table()
            cols = []
            if self.op("("):
                while True:
                    cols.append(self.name())
                    if not self.op(","):
                        break
                self.need(self.op(")"), ")")
            if not self.kw("values"):
                raise Undecided("INSERT without VALUES")
            rows = []
            while True:
                self.need(self.op("("), "(")
                r = []
                while True:
                    r.append(self.expr())
                    if not self.op(","):
                        break
                self.need(self.op(")"), ")")
                rows.append(r)
                if not self.op(","):
                    break
            if self.kw("on"):
                raise Undecided("ON CONFLICT")
            for r in rows:
                if len(r) != len(cols):
                    raise Bad(f"{len(cols)} columns but {len(r)} values")
            return {"k": "insert", "table": t, "cols": cols, "rows": rows, "ret": self.returning()}
        if self.kw("delete"):
            self.need(self.kw("from"), "FROM")
            t = self.table()
            w = self.expr() if self.kw("where") else None
            return {"k": "delete", "table": t, "where": w, "ret": self.returning()}
        raise Undecided(f"statement {self.text[:80]!r}")

    def returning(self):
        return self.columns() if self.kw("returning") else None

    def columns(self):
        out = []
        while True:
            if self.op("*"):
                out.append((("star",), "*"))
            else:
                e = self.expr()
                n = e[1] if e[0] == "col" else None
                if self.kw("as"):
                    n = self.name()
                elif self.peek()[0] in ("id", "q"):
                    n = self.name()
                out.append((e, n))
            if not self.op(","):
                return out

    def select(self):
        self.need(self.kw("select"), "SELECT")
        if self.peek() in (("kw", "distinct"), ("kw", "all")):
            raise Undecided("SELECT DISTINCT")
        cols = self.columns()
        t = None
        if self.kw("from"):
            t = self.table()
            if self.peek() == ("op", ","):
                raise Undecided("join")
        w = self.expr() if self.kw("where") else None
        order = []
        if self.peek() in (("kw", "group"), ("kw", "having"), ("kw", "union")):
            raise Undecided("aggregation")
        if self.kw("order", "by"):
            while True:
                e = self.expr()
                d = "desc" if self.kw("desc") else "asc"
                self.kw("asc")
                if self.kw("nulls"):
                    self.next()
                order.append((e, d))
                if not self.op(","):
                    break
        lim = off = None
        for _ in range(2):
            if self.kw("limit"):
                lim = self.arith()
            if self.kw("offset"):
                off = self.arith()
        lock = None
        if self.kw("for"):
            if self.kw("update"):
                lock = "update"
            elif self.kw("share") or self.peek()[1] in ("no", "key"):
                lock = "share"
                while self.peek()[1] in ("no", "key", "share", "update"):
                    self.next()
            if self.kw("skip"):
                self.need(self.kw("locked"), "LOCKED")
                lock += " skip"
            elif self.kw("nowait"):
                lock += " nowait"
        return {"k": "select", "cols": cols, "table": t, "where": w, "order": order, "limit": lim, "offset": off, "lock": lock}

    # ---- expressions
    def rep_case(self, f):
        """('lead'|'trail', 'and'|'or', [(cond, expr)], src, bv) of a repeated text"""
        _, src, bv, cases, shape = f.a
        if shape:
            raise Undecided(f"text repeated for part of the elements: {short(shape[0])}")
        kinds, out = set(), []
        for c, tail in cases:
            p = Parser(tail)
            if not p.t:
                out.append((c, None))
                continue
            if p.binds:
                raise Undecided("values bound per element")
            if p.t[0] in (("kw", "and"), ("kw", "or")):
                kinds.add(("lead", p.t[0][1]))
                p.t = p.t[1:]
            elif p.t[-1] in (("kw", "and"), ("kw", "or")):
                kinds.add(("trail", p.t[-1][1]))
                p.t = p.t[:-1]
            else:
                raise Undecided("repeated text without AND/OR")
            e = p.expr()
            if p.peek()[0] != "end":
                raise Undecided("repeated text is not one condition")
            lv = level(e)
            self.loose += p.loose
            if lv == "or" and any(k[1] == "and" for k in kinds):
                raise Bad("a condition containing OR is joined with AND without parentheses")
            if lv == "rec":
                self.loose.append(next(iter(kinds))[1])
            out.append((c, e))
        if len(kinds) != 1:
            raise Undecided("repeated text with different connectives")
        where, conn = next(iter(kinds))
        return where, conn, out, src, bv

    def rep_here(self, conn, where):
        k, v = self.peek()
        if k == "sp" and self.sp[v].a[0] == "rep":
            r = self.rep_case(self.sp[v])
            if r[0] == where and r[1] == conn:
                self.i += 1
                return ("rep", conn, r[2], r[3], r[4])
        return None

    def expr(self):
        parts = []
        while True:
            r = self.rep_here("or", "trail")
            if r:
                parts.append(r)
                continue
            parts.append(self.conj())
            r = self.rep_here("or", "lead")
            while r:
                parts.append(r)
                r = self.rep_here("or", "lead")
            if not self.kw("or"):
                break
        if len(parts) > 1:
            for x in parts:
                if x[0] == "rec":
                    self.loose.append("or")
            return ("or", parts)
        return parts[0]

    def conj(self):
        parts = []
        while True:
            r = self.rep_here("and", "trail")
            if r:
                parts.append(r)
                continue
            parts.append(self.neg())
            r = self.rep_here("and", "lead")
            while r:
                parts.append(r)
                r = self.rep_here("and", "lead")
            if not self.kw("and"):
                break
        if len(parts) > 1:
            for x in parts:
                if x[0] == "rec":
                    self.loose.append("and")
            return ("and", parts)
        return parts[0]

    def neg(self):
        if self.kw("not"):
            x = self.neg()
            if x[0] == "rec":
                self.loose.append("not")
            return ("not", x)
        return self.cmp()

    def cmp(self):
        a = self.arith()
        while True:
            if self.kw("is"):
                n = self.kw("not")
                if self.kw("null"):
                    a = ("isnull", a, not n)
                    continue
                raise Undecided("IS")
            neg = False
            if self.peek() == ("kw", "not") and self.peek(1) in (("kw", "in"), ("kw", "between")):
                self.i += 1
                neg = True
            if self.kw("in"):
                self.need(self.op("("), "(")
                if self.peek() == ("kw", "select"):
                    s = self.select()
                    self.need(self.op(")"), ")")
                    a = ("insel", a, s)
                else:
                    xs = [self.expr()]
                    while self.op(","):
                        xs.append(self.expr())
                    self.need(self.op(")"), ")")
                    a = ("or", [("cmp", "=", a, x) for x in xs]) if len(xs) > 1 else ("cmp", "=", a, xs[0])
                    a = ("paren", a)
                if neg:
                    a = ("not", a)
                continue
            if self.kw("between"):
                lo = self.arith()
                self.need(self.kw("and"), "AND")
                hi = self.arith()
                a = ("paren", ("and", [("cmp", ">=", a, lo), ("cmp", "<=", a, hi)]))
                if neg:
                    a = ("not", a)
                continue
            k, o = self.peek()
            if k == "op" and o in ("=", "<", ">", "<=", ">=", "<>", "!=", "@>", "<@", "&&"):
                self.i += 1
                if self.peek() in (("kw", "any"), ("kw", "some"), ("kw", "all")):
                    q = "all" if self.next()[1] == "all" else "any"
                    self.need(self.op("("), "(")
                    x = self.expr()
                    self.need(self.op(")"), ")")
                    a = ("quant", q, "!=" if o == "<>" else o, a, x)
                else:
                    a = ("cmp", "!=" if o == "<>" else o, a, self.arith())
                continue
            return a

    def arith(self):
        a = self.mul()
        while self.peek() in (("op", "+"), ("op", "-"), ("op", "||")):
            o = self.next()[1]
            a = ("arith", o, a, self.mul())
        return a

    def mul(self):
        a = self.prim()
        while self.peek() in (("op", "*"), ("op", "/"), ("op", "%")):
            o = self.next()[1]
            a = ("arith", o, a, self.prim())
        return a

    def prim(self):
        a = self.atom()
        while self.op("::"):
            ty = self.name()
            while self.peek()[0] == "id" and self.peek()[1] in ("varying", "precision"):
                ty += " " + self.name()
            if self.op("["):
                self.need(self.op("]"), "]")
                ty += "[]"
            a = ("cast", a, ty)
        return a

    def atom(self):
        k, v = self.next()
        if k == "num":
            return ("num", v)
        if k == "str":
            return ("str", v)
        if k == "par":
            if v not in self.binds:
                raise Bad(f"${v} has no value")
            return ("val", self.binds[v])
        if k == "sp":
            f = self.sp[v]
            if f.a[0] == "rec":
                return ("rec", f.a[1], f.a[2])
            raise Undecided("repeated text in an unexpected place")
        if k == "op" and v == "(":
            if self.peek() == ("kw", "select"):
                s = self.select()
                self.need(self.op(")"), ")")
                return ("sub", s)
            e = self.expr()
            self.need(self.op(")"), ")")
            return ("paren", e)
        if k == "op" and v in ("-", "+"):
            x = self.atom()
            return ("arith", v, ("num", "0"), x)
        if k == "kw":
            if v in ("true", "false"):
                return ("bool", v == "true")
            if v == "null":
                return ("null",)
            if v == "interval":
                x = self.next()
                return ("interval", x[1])
            if v == "case":
                base = None if self.peek() == ("kw", "when") else self.expr()
                ws = []
                while self.kw("when"):
                    c = self.expr()
                    self.need(self.kw("then"), "THEN")
                    ws.append((c if base is None else ("cmp", "=", base, c), self.expr()))
                e = self.expr() if self.kw("else") else ("null",)
                self.need(self.kw("end"), "END")
                return ("case", ws, e)
            if v in ("array", "exists"):
                raise Undecided(v)
        if k == "id":
            if self.op("("):
                xs = []
                if not self.op(")"):
                    while True:
                        xs.append(self.expr())
                        if not self.op(","):
                            break
                    self.need(self.op(")"), ")")
                return ("fn", v, xs)
            if self.op("."):
                v = self.name()
            return ("col", v)
        self.i -= 1
        self.need(False, "an expression")


def level(e):
    return e[0] if e[0] in ("or", "and", "not", "rec", "rep") else "closed"


def unparen(e):
    while e[0] in ("paren", "cast"):
        e = e[1]
    return e


# ---- meaning ----------------------------------------------------------------------------------------------


def seconds(s):
    m = re.fullmatch(r"(\d+):(\d+):(\d+(?:\.\d+)?)", s.strip())
    if m:
        from fractions import Fraction
        return int((int(m[1]) * 3600 + int(m[2]) * 60 + Fraction(m[3])) * 10**9)
    m = re.fullmatch(r"(\d+(?:\.\d+)?)\s*([a-z]+)", s.strip().lower())
    if m:
        from fractions import Fraction
        u = {"s": 10**9, "sec": 10**9, "secs": 10**9, "second": 10**9, "seconds": 10**9, "ms": 10**6, "millisecond": 10**6, "milliseconds": 10**6, "minute": 60 * 10**9, "minutes": 60 * 10**9}.get(m[2])
        if u:
            return int(Fraction(m[1]) * u)
    raise Undecided(f"interval {s!r}")


def jobstatus(name):
    v = [s for s in STATUSES if s.lower() == name]
    if not v:
        raise Bad(f"{name!r} is not a job status")
    return ADT(JS, v[0], ())


def is_status(t):
    return t.op == "adt" and t.a[0] in (JS, "rexecutor_sqlx::types::JobStatus")


def core_status(t):
    """a status of the Postgres crate stands for the one of the same name"""
    return ADT(JS, t.a[1], ()) if t.op == "adt" and t.a[0] == "rexecutor_sqlx::types::JobStatus" else t


NOWT = APP("now", STR("sql"))


class Sem:
    """meaning of expressions over the row"""

    def __init__(self, row=ROW, now=NOWT):
        self.row, self.now = row, now

    def type_of(self, e):
        e = unparen(e)
        if e[0] == "col":
            return "status" if e[1] == "status" else "time" if e[1] in TIMES else "int" if e[1] in INTS else e[1]
        if e[0] == "fn" and e[1] in ("now", "timezone", "clock_timestamp", "current_timestamp", "transaction_timestamp", "statement_timestamp"):
            return "time"
        if e[0] == "arith":
            a, b = self.type_of(e[2]), self.type_of(e[3])
            if e[1] == "-" and a == "time" and b == "time":
                return "dur"
            if "time" in (a, b):
                return "time"
            return a or b
        if e[0] == "interval":
            return "dur"
        return None

    def value(self, e, ty=None):
        e = unparen(e)
        k = e[0]
        if k == "col":
            if e[1] not in COLS:
                raise Bad(f"no column {e[1]!r}")
            return fld(self.row, e[1])
        if k == "val":
            return bound(e[1])
        if k == "num":
            if "." in e[1]:
                raise Undecided("decimal")
            return INT(int(e[1]))
        if k == "null":
            return OPT()
        if k == "interval":
            return INT(seconds(e[1]))
        if k == "str":
            if ty == "status":
                return jobstatus(e[1])
            if ty == "dur":
                return INT(seconds(e[1]))
            return STR(e[1])
        if k == "fn":
            n, xs = e[1], e[2]
            if n in ("now", "clock_timestamp", "current_timestamp", "transaction_timestamp", "statement_timestamp") and not xs:
                return self.now
            if n == "timezone" and len(xs) == 2 and unparen(xs[0]) == ("str", "UTC"):
                return self.value(xs[1])
            if n == "array_append" and len(xs) == 2:
                return mk("push", self.value(xs[0]), self.value(xs[1]))
            if n in ("jsonb_build_object", "json_build_object") and len(xs) % 2 == 0:
                fs = []
                for i in range(0, len(xs), 2):
                    kx = unparen(xs[i])
                    if kx[0] != "str":
                        raise Undecided("json key")
                    fs.append((kx[1], self.value(xs[i + 1])))
                return ADT("json", "json", fs)
            raise Undecided(f"function {n}")
        if k == "arith":
            ta, tb = self.type_of(e[2]), self.type_of(e[3])
            a, b = self.value(e[2], "dur" if tb == "time" and ta is None else None), self.value(e[3], "dur" if ta == "time" and tb is None else None)
            if e[1] == "+":
                return ladd(a, b)
            if e[1] == "-":
                return lsub(a, b)
            raise Undecided(f"operator {e[1]}")
        raise Undecided(f"expression {k}")

    def cases(self, e, ty=None):
        """[(DNF, value)]: the alternatives of an expression's value"""
        e = unparen(e)
        if e[0] == "case":
            out, rest = [], [frozenset()]
            for c, v in e[1]:
                d = self.pred(c)
                for d2, x in self.cases(v, ty):
                    out.append((formula.conj_and(formula.conj_and(rest, d), d2), x))
                rest = formula.conj_and(rest, formula.neg(d))
            for d2, x in self.cases(e[2], ty):
                out.append((formula.conj_and(rest, d2), x))
            return out
        if e[0] == "fn" and e[1] == "coalesce":
            raise Undecided("coalesce")
        return [([frozenset()], self.value(e, ty))]

    def pred(self, e, positive=True):
        k = e[0]
        if k in ("paren", "cast"):
            return self.pred(e[1], positive)
        if k == "bool":
            return [frozenset()] if e[1] else []
        if k == "and":
            acc = [frozenset()]
            for x in e[1]:
                acc = formula.conj_and(acc, self.pred(x, positive))
            return acc
        if k == "or":
            acc = []
            for x in e[1]:
                acc = formula.conj_or(acc, self.pred(x, positive))
            return acc
        if k == "not":
            d = formula.neg(self.pred(e[1], not positive))
            if d is None:
                raise Undecided("negation")
            return d
        if k == "rep":
            _, conn, cases, src, bv = e
            body = []
            for c, x in cases:
                if x is None:
                    continue
                d = self.pred(x, positive)
                if conn == "and":
                    d = formula.neg(d)
                body += formula.conj_and([frozenset(c)], d)
            if src.op == "arr":
                raise Undecided("repetition over a literal list")
            a = mk("any", src, bv, frozenset(frozenset(c) for c in body))
            return [frozenset([(a, frozenset((0 if conn == "and" else 1,)))])]
        if k == "rec":
            qs = [x for x in e[2] if x.op in ("elem", "fld", "dc", "sym", "adt")]
            if len(qs) != 1:
                raise Undecided(f"recursive text of {short(mk('t', e[2]))}")
            return [frozenset([(mk("qd", qs[0], self.row), frozenset((1,)))])]
        if k == "cmp":
            return self.cmp(e[1], e[2], e[3], positive)
        if k == "quant":
            return self.quant(e[1], e[2], e[3], e[4], positive)
        if k == "isnull":
            c = unparen(e[1])
            if c[0] != "col" or c[1] not in NULLABLE:
                raise Undecided("IS NULL")
            d = isin(mkdisc(fld(self.row, c[1]), OPTN), ("None" if e[2] else "Some",))
            return formula.of_bool(d)
        if k == "col":
            raise Undecided("boolean column")
        raise Undecided(f"condition {k}")

    def operand(self, e, ty, positive):
        """(DNF guard, value): nullable columns contribute the guard that they are not null"""
        x = unparen(e)
        if x[0] == "col" and x[1] in NULLABLE:
            if not positive:
                raise Undecided("negated condition on a nullable column")
            o = fld(self.row, x[1])
            return formula.of_bool(isin(mkdisc(o, OPTN), ("Some",))), fld(dc(o, "Some"), "0")
        v = self.value(e, ty)
        if v.op == "adt" and v.a[0] == OPTN:
            return ([frozenset()], v.a[2][0][1]) if v.a[1] == "Some" else ([], v)
        return [frozenset()], v

    def cmp(self, o, a, b, positive):
        ta, tb = self.type_of(a), self.type_of(b)
        if o in ("@>", "<@", "&&"):
            if o == "<@":
                a, b, o = b, a, "@>"
            x, y = self.value(a), self.value(b)
            if o == "&&" and not self.is_tags(x) and self.is_tags(y):
                x, y = y, x
            if not self.is_tags(x) and not self.is_tags(y):
                raise Undecided("array operator on something other than the tags")
            bv, bu = mk("bv", 91), mk("bv", 92)
            has = lambda t: frozenset([frozenset([(mk("any", x, bu, frozenset(frozenset(c) for c in formula.of_bool(mkeq(mk("elem", x, bu), t)))), frozenset((0 if o == "@>" else 1,)))])])
            return [frozenset([(mk("any", y, bv, has(mk("elem", y, bv))), frozenset((0 if o == "@>" else 1,)))])]
        ga, x = self.operand(a, tb, positive)
        gb, y = self.operand(b, ta, positive)
        g = formula.conj_and(ga, gb)
        if not g:
            return []
        return formula.conj_and(g, self.rel(o, x, y, ta or tb))

    def is_tags(self, x):
        return x is fld(self.row, "tags")

    def rel(self, o, x, y, ty):
        x, y = core_status(x), core_status(y)
        if ty in ("time", "dur", "int"):
            if o in ("=", "!="):
                d = formula.of_bool(numeq(x, y))
                return d if o == "=" else formula.neg(d)
            return formula.of_bool(numcmp({"<": "Lt", ">": "Gt", "<=": "Le", ">=": "Ge"}[o], x, y))
        if o not in ("=", "!="):
            raise Undecided(f"operator {o}")
        d = status_eq(x, y) if ty == "status" else formula.of_bool(mkeq(x, y))
        return d if o == "=" else formula.neg(d)

    def quant(self, q, o, a, b, positive):
        """a o ANY/ALL(array)"""
        ga, x = self.operand(a, None, positive)
        ty = self.type_of(a)
        coll = self.value(b)
        if coll.op == "arr":
            acc = [] if q == "any" else [frozenset()]
            for y in coll.a[0]:
                d = self.rel(o, x, y, ty)
                acc = formula.conj_or(acc, d) if q == "any" else formula.conj_and(acc, d)
            return formula.conj_and(ga, acc)
        if coll.op == "comp":
            if coll.a[3]:
                if all(x.a[0] in ("skip", "take", "step_by") and len(x.a) > 1 and x.a[1].op == "int" and (x.a[0], x.a[1].a[0]) not in (("skip", 0), ("step_by", 1)) for x in coll.a[3]):
                    raise Bad("only part of the given values is bound: " + short(coll.a[3]))
                raise Undecided("part of a collection")
            src, bv, cs = coll.a[0], coll.a[4], coll.a[1]
        else:
            src, bv = coll, mk("bv", 93)
            cs = ((frozenset(), mk("elem", coll, bv)),)
        body = []
        for c, y in cs:
            d = self.rel(o, x, y, ty)
            if q == "all":
                d = formula.neg(d)
            body += formula.conj_and([frozenset(c)], d)
        a_ = mk("any", src, bv, frozenset(frozenset(c) for c in body))
        return formula.conj_and(ga, [frozenset([(a_, frozenset((1 if q == "any" else 0,)))])])


def status_eq(x, y):
    """equality of two statuses, by variants"""
    lit = lambda t: t.a[1] if t.op == "adt" else None
    if lit(x) and lit(y):
        return [frozenset()] if lit(x) == lit(y) else []
    if lit(x):
        x, y = y, x
    if lit(y):
        return formula.of_bool(isin(mkdisc(x, JS), (lit(y),)))
    out = []
    for s in STATUSES:
        out += formula.conj_and(formula.of_bool(isin(mkdisc(x, JS), (s,))), formula.of_bool(isin(mkdisc(y, JS), (s,))))
    return out


def bound(v):
    """a bound value: wrappers that do not change it are removed"""
    while True:
        if v.op == "adt" and v.a[0].endswith("types::Text") or v.op == "adt" and v.a[0].endswith("types::Json"):
            v = v.a[2][0][1]
            continue
        if v.op == "adt" and v.a[0] == "rexecutor_sqlx::types::JobStatus":
            return core_status(v)
        if v.op == "adt" and v.a[0] == "rexecutor_sqlx::types::ErrorType":
            return ADT("rexecutor::job::ErrorType", v.a[1], v.a[2])
        return v


def parse(st):
    """statement value -> (parsed, Parser)"""
    if st.op != "stmt":
        raise Undecided(f"statement {short(st)}")
    p = Parser(st.a[0], st.a[1])
    d = 0
    for t in p.t:
        d += (t == ("op", "(")) - (t == ("op", ")"))
        if d < 0:
            break
    if d:
        raise Bad(f"unbalanced parentheses in {' '.join(p.text.split())[:200]!r}")
    return p.statement(), p
