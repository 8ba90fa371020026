"""Loads the extracted facts and prepares each body: control-flow graph, loops, liveness."""
import json
import os

from . import terms

NORM = {}


def norm(path):
    """drop generic arguments from a printed path"""
    r = NORM.get(path)
    if r is not None:
        return r
    out = []
    i, n = 0, len(path)
    if path.startswith("<") and " as " in path or path.startswith("<"):
        # <A as B>::m : normalise inside but keep the outer <>
        depth = 0
        j = 0
        for j, c in enumerate(path):
            if c == "<":
                depth += 1
            elif c == ">" and path[j - 1] != "-":
                depth -= 1
                if depth == 0:
                    break
        inner = path[1:j]
        # split at top-level " as "
        d = 0
        k = -1
        for x in range(len(inner)):
            if inner[x] == "<":
                d += 1
            elif inner[x] == ">" and inner[x - 1] != "-":
                d -= 1
            elif d == 0 and inner.startswith(" as ", x):
                k = x
                break
        if k >= 0:
            r = "<" + norm(inner[:k]) + " as " + norm(inner[k + 4:]) + ">" + norm(path[j + 1:])
        else:
            r = "<" + norm(inner) + ">" + norm(path[j + 1:])
        NORM[path] = r
        return r
    depth = 0
    while i < n:
        c = path[i]
        if c == "<" and not (path.startswith("<impl ", i)):
            # generic args: skip to the matching >
            d = 0
            j = i
            while j < n:
                if path[j] == "<":
                    d += 1
                elif path[j] == ">" and path[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            while out and out[-1] == ":":
                out.pop()
            i = j + 1
            continue
        if path.startswith("<impl ", i):
            d = 0
            j = i
            while j < n:
                if path[j] == "<":
                    d += 1
                elif path[j] == ">" and path[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            inner = path[i + 6:j]
            out.append("<impl " + norm(inner) + ">")
            i = j + 1
            continue
        out.append(c)
        i += 1
    r = "".join(out)
    NORM[path] = r
    return r


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None and t[3] != -1 else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] != -1 else []
    if k == "assert":
        return [t[3]]
    if k == "yield":
        return [t[2]] if isinstance(t[2], int) and t[2] >= 0 else []
    return []


class Body:
    __slots__ = ("f", "key", "path", "bbs", "nargs", "locals", "rpo", "loops", "live", "keep", "derived", "span", "npath")

    def __init__(self, f):
        self.f = f
        self.key = f["key"]
        self.path = f["path"]
        self.npath = norm(f["path"])
        self.bbs = f["bbs"]
        self.nargs = f["nargs"]
        self.locals = f["locals"]
        self.span = f["span"]
        ms = " ".join(f["span"][2]) if len(f["span"]) > 2 else ""
        self.derived = None
        for d in ("PartialEq", "Clone", "PartialOrd", "Ord", "Hash", "Debug", "Default", "Eq"):
            if any(m.endswith("::" + d) for m in (f["span"][2] if len(f["span"]) > 2 else [])):
                self.derived = d
        self._cfg()
        self._live()

    def _cfg(self):
        n = len(self.bbs)
        S = [[] for _ in range(n)]
        for i, b in enumerate(self.bbs):
            if not b.get("cl"):
                S[i] = [s for s in succs(b["t"]) if s is not None and 0 <= s < n]
        # dfs postorder
        seen = [0] * n
        order = []
        backs = []
        st = [(0, 0)]
        seen[0] = 1
        while st:
            x, k = st[-1]
            if k < len(S[x]):
                st[-1] = (x, k + 1)
                y = S[x][k]
                if seen[y] == 0:
                    seen[y] = 1
                    st.append((y, 0))
                elif seen[y] == 1:
                    backs.append((x, y))
            else:
                seen[x] = 2
                order.append(x)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        P = [[] for _ in range(n)]
        for x in range(n):
            if seen[x]:
                for y in S[x]:
                    P[y].append(x)
        loops = {}
        for x, h in backs:
            body = loops.setdefault(h, {h})
            stk = [x]
            while stk:
                y = stk.pop()
                if y in body:
                    continue
                body.add(y)
                stk.extend(P[y])
        self.loops = loops

    def _live(self):
        n = len(self.bbs)
        keep = set()
        use = [set() for _ in range(n)]
        de = [set() for _ in range(n)]

        def uplace(p, i):
            if p[0] not in de[i]:
                use[i].add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in de[i]:
                    use[i].add(e[1])

        def uop(o, i):
            if o[0] in ("cp", "mv"):
                uplace(o[1], i)

        def dplace(p, i):
            if p[1]:
                uplace(p, i)
            else:
                de[i].add(p[0])

        def urv(rv, i):
            k = rv[0]
            if k in ("use", "repeat"):
                uop(rv[1], i)
            elif k == "ref":
                uplace(rv[2], i)
                if rv[1] != "s" and not any(e[0] == "*" for e in rv[2][1]):
                    keep.add(rv[2][0])
            elif k == "cast":
                uop(rv[2], i)
            elif k == "bin":
                uop(rv[2], i)
                uop(rv[3], i)
            elif k == "un":
                uop(rv[2], i)
            elif k == "discr":
                uplace(rv[1], i)
            elif k == "agg":
                for o in rv[2]:
                    uop(o, i)
            elif k == "rawptr":
                uplace(rv[1], i)
                keep.add(rv[1][0])

        for i, b in enumerate(self.bbs):
            for s in b["s"]:
                if s[0] == "=":
                    urv(s[2], i)
                    dplace(s[1], i)
                elif s[0] in ("dead", "live"):
                    de[i].add(s[1])
            t = b["t"]
            k = t[0]
            if k == "switch":
                uop(t[1], i)
            elif k == "ret":
                if 0 not in de[i]:
                    use[i].add(0)
            elif k == "drop":
                uplace(t[1], i)
            elif k == "call":
                uop(t[1], i)
                for a in t[2]:
                    uop(a, i)
                dplace(t[3], i)
            elif k == "assert":
                uop(t[1], i)
            elif k == "yield":
                uop(t[1], i)
        live = [set() for _ in range(n)]
        ch = True
        order = sorted(self.rpo, key=lambda b: -self.rpo[b])
        while ch:
            ch = False
            for i in order:
                o = set()
                for s in succs(self.bbs[i]["t"]):
                    if s is not None and 0 <= s < n:
                        o |= live[s]
                new = use[i] | (o - de[i])
                if new != live[i]:
                    live[i] = new
                    ch = True
        self.live = live
        self.keep = keep


class Facts:
    def __init__(self, d):
        self.bodies = {}
        self.raw = {}
        self.impls = []
        self.adts = {}
        self.by_path = {}
        self.crates = {}
        for c in ("rexecutor", "rexecutor_sqlx"):
            p = os.path.join(d, c + ".json")
            if not os.path.exists(p):
                continue
            self.add(c, json.load(open(p)))

    def add(self, c, j):
        """the facts j of the crate c"""
        self.crates[c] = j
        for k, v in j["adts"].items():
            old = self.adts.get(k)
            if old is None or (v["local"] and not old["local"]):
                self.adts[k] = v
        self.impls += [(c,) + tuple(x) for x in j["impls"]]
        for f in j["fns"]:
            f["crate"] = c
            if f["key"] not in self.raw or f["local"]:
                self.raw[f["key"]] = f
                self.by_path.setdefault(f["path"], f["key"])
        terms.ADTS.clear()
        terms.ADTS.update(self.adts)

    def body(self, key):
        b = self.bodies.get(key)
        if b is None:
            f = self.raw.get(key)
            if f is None:
                return None
            b = Body(f)
            self.bodies[key] = b
        return b
