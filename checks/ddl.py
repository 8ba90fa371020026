"""The schema the Postgres backend runs against: what the migrations of the current tree create.

Read from the migration texts (never executed): columns with their defaults, the labels of the state type, and which
changes of a job row send a notification on which channel."""
import os
import re

from .core import Undecided

TABLE = "rexecutor_jobs"
LABELS = {"scheduled", "executing", "retryable", "complete", "cancelled", "discarded"}


def split(text):
    """statements of a script; $tag$ … $tag$ and quotes are opaque to the ; separator"""
    out, cur, i = [], [], 0
    while i < len(text):
        c = text[i]
        if text.startswith("--", i):
            j = text.find("\n", i)
            i = len(text) if j < 0 else j
            continue
        if text.startswith("/*", i):
            j = text.find("*/", i)
            i = len(text) if j < 0 else j + 2
            continue
        if c == "'":
            j = i + 1
            while j < len(text) and not (text[j] == "'" and not text.startswith("''", j)):
                j += 2 if text.startswith("''", j) else 1
            cur.append(text[i:j + 1])
            i = j + 1
            continue
        m = re.compile(r"\$[A-Za-z_0-9]*\$").match(text, i)
        if m:
            j = text.find(m.group(0), m.end())
            j = len(text) if j < 0 else j + len(m.group(0))
            cur.append(text[i:j])
            i = j
            continue
        if c == ";":
            out.append("".join(cur))
            cur = []
        else:
            cur.append(c)
        i += 1
    out.append("".join(cur))
    return [re.sub(r"\s+", " ", s).strip() for s in out if s.strip()]


def commas(s):
    out, cur, d, q = [], "", 0, False
    for c in s:
        if c == "'":
            q = not q
        if not q and c in "([":
            d += 1
        if not q and c in ")]":
            d -= 1
        if c == "," and d == 0 and not q:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def bare(name):
    n = name.strip().strip('"').lower()
    return n[7:] if n.startswith("public.") else n


def default_of(col):
    m = re.search(r"\bdefault\b\s+(.*)$", col, re.I)
    if not m:
        return None
    e = m.group(1)
    e = re.split(r"\s+(?:not\s+null|null|unique|primary\s+key|check|references|collate)\b", e, flags=re.I)[0]
    return e.strip()


class Schema:
    def __init__(self, root):
        d = os.path.join(root, "rexecutor-sqlx", "migrations")
        if not os.path.isdir(d):
            raise Undecided("no migrations directory")
        self.files = sorted(f for f in os.listdir(d) if f.endswith(".sql") and not f.endswith(".down.sql"))
        if not self.files:
            raise Undecided("no migrations")
        self.cols, self.labels, self.fns, self.triggers = None, None, {}, {}
        for f in self.files:
            with open(os.path.join(d, f)) as h:
                text = h.read()
            for s in split(text):
                self.stmt(s)
        if self.cols is None:
            raise Undecided("the job table is not created by a statement in reach")

    def stmt(self, s):
        low = s.lower()
        m = re.search(r"create type (\S+) as enum\s*\(([^)]*)\)", s, re.I)
        if m:
            if bare(m.group(1)) == "rexecutor_job_state":
                self.labels = set(re.findall(r"'([^']*)'", m.group(2)))
            return
        if low.startswith(("begin", "commit", "create index", "create unique index", "comment on", "set ", "create extension")):
            return
        m = re.match(r"create table (?:if not exists )?(\S+)\s*\((.*)\)$", s, re.I)
        if m:
            if bare(m.group(1)) == TABLE:
                self.cols = {}
                for c in commas(m.group(2)):
                    self.column(c)
            return
        m = re.match(r"create (?:or replace )?function ([^\s(]+)\s*\(", s, re.I)
        if m:
            b = re.search(r"(\$[A-Za-z_0-9]*\$)(.*)\1", s, re.S)
            self.fns[bare(m.group(1))] = b.group(2).strip() if b else None
            return
        m = re.match(r"create (?:or replace )?(?:constraint )?trigger (\S+) (before|after|instead of) (.*?) on (\S+) (.*)$", s, re.I)
        if m:
            name, timing, events, table, rest = m.groups()
            fm = re.search(r"execute (?:function|procedure) ([^\s(]+)", rest, re.I)
            wm = re.search(r"\bwhen\s*\((.*)\)\s*execute", rest, re.I)
            self.triggers[bare(name)] = {
                "timing": timing.lower(), "events": events.lower(), "table": bare(table), "row": bool(re.search(r"for (each )?row", rest, re.I)),
                "fn": bare(fm.group(1)) if fm else None, "when": wm.group(1) if wm else None,
            }
            return
        m = re.match(r"drop trigger (?:if exists )?(\S+) on (\S+)", s, re.I)
        if m:
            self.triggers.pop(bare(m.group(1)), None)
            return
        m = re.match(r"drop function (?:if exists )?([^\s(]+)", s, re.I)
        if m:
            self.fns.pop(bare(m.group(1)), None)
            return
        m = re.match(r"alter table (?:only )?(?:if exists )?(\S+) (.*)$", s, re.I)
        if m and bare(m.group(1)) == TABLE:
            for a in commas(m.group(2)):
                self.alter(a)
            return
        if m or low.startswith(("create table", "drop index", "alter index", "do $$", "create trigger")):
            if low.startswith("do $$") and (TABLE in low or "trigger" in low):
                raise Undecided("a code block changes the job table")
            return
        raise Undecided(f"migration statement {s[:60]!r}")

    def column(self, c):
        w = c.split(" ", 1)
        if w[0].lower() in ("constraint", "primary", "unique", "check", "foreign", "exclude"):
            return
        rest = w[1] if len(w) > 1 else ""
        self.cols[bare(w[0])] = {"type": rest.split(" ")[0].lower(), "default": default_of(rest)}

    def alter(self, a):
        m = re.match(r"alter (?:column )?(\S+) set default (.*)$", a, re.I)
        if m:
            self.cols[bare(m.group(1))]["default"] = m.group(2).strip()
            return
        m = re.match(r"alter (?:column )?(\S+) drop default$", a, re.I)
        if m:
            self.cols[bare(m.group(1))]["default"] = None
            return
        m = re.match(r"add (?:column )?(?:if not exists )?(.*)$", a, re.I)
        if m:
            self.column(m.group(1))
            return
        if re.match(r"alter (?:column )?(\S+) (set|drop) not null$", a, re.I):
            return
        raise Undecided(f"ALTER TABLE {a[:50]!r}")


def uncast(e):
    e = e.strip()
    while True:
        m = re.match(r"(.*)::[A-Za-z_ ]+(\[\])?(\(\d+\))?$", e)
        if m and "(" not in m.group(1).replace("()", ""):
            e = m.group(1).strip()
        elif e.startswith("(") and e.endswith(")"):
            e = e[1:-1].strip()
        else:
            return e


def initial(col, d):
    """is the default d the initial value of the column?  True | False | None"""
    if col == "status":
        return None if d is None else uncast(d).lower() == "'scheduled'"
    if col == "attempt":
        return None if d is None else uncast(d) == "0"
    if col == "errors":
        return None if d is None else re.sub(r"\s", "", uncast(d).lower()) in ("array[]", "'{}'")
    if col == "inserted_at":
        return None if d is None else bool(re.search(r"\bnow\(\)|current_timestamp|clock_timestamp\(\)|transaction_timestamp\(\)|statement_timestamp\(\)", d, re.I))
    return d is None or uncast(d).lower() == "null"


def notified(body):
    """(statuses, channel, keys) of a notifying trigger function: the new statuses it notifies for"""
    b = re.sub(r"\s+", " ", body)
    m = re.search(r"\bbegin\b(.*)\bend\s*;?\s*$", b, re.I)
    if not m:
        raise Undecided("shape of the trigger function")
    code = m.group(1)
    ifs = re.findall(r"\bif\b(?! exists)(.*?)\bthen\b(.*?)\bend if\b", code, re.I)
    if len(ifs) > 1 or re.search(r"\belse\b|\belsif\b|\bloop\b|\bcase\b", code, re.I):
        raise Undecided("shape of the trigger function")
    asg = {}
    for n, e in re.findall(r"(\w+)\s*:?=\s*('[^']*'|json_build_object\([^;]*\)|jsonb_build_object\([^;]*\))\s*;", code + " " + b):
        asg[n.lower()] = e
    pm = re.findall(r"perform\s+pg_notify\s*\(\s*([^,]+?)\s*,\s*(.*?)\)\s*;", code, re.I)
    if len(pm) != 1:
        if not pm and "pg_notify" not in code.lower() and "notify" not in code.lower():
            return set(), None, set()
        raise Undecided("how the trigger function notifies")
    chan, payload = pm[0]
    chan = asg.get(chan.lower(), chan)
    if not chan.startswith("'"):
        raise Undecided("channel of the notification")
    pn = re.match(r"(\w+)", payload)
    src = asg.get(pn.group(1).lower(), payload) if pn else payload
    pairs = dict(re.findall(r"'(\w+)'\s*,\s*NEW\.(\w+)", src, re.I))
    if ifs and "pg_notify" in ifs[0][1].lower():
        cond = ifs[0][0].strip()
        sts = set()
        for part in re.split(r"\bor\b", cond, flags=re.I):
            part = part.strip().strip("()").strip()
            pm = re.match(r"new\.status\s*=\s*'(\w+)'(?:::\w+)?$", part, re.I)
            im = re.match(r"new\.status\s+in\s*\((.*)$", part, re.I)
            if pm:
                sts.add(pm.group(1))
            elif im:
                sts |= set(re.findall(r"'(\w+)'", im.group(1)))
            else:
                am = re.match(r"new\.status\s*=\s*'(\w+)'(?:::\w+)?\s+and\b", part, re.I)
                if am:
                    continue  # notified only under a further condition
                raise Undecided(f"condition of the notification {cond!r}")
    else:
        sts = set(LABELS)
    return sts, chan.strip("'"), pairs


def notifications(schema):
    """event -> [(statuses, channel, keys)] of the row triggers of the job table"""
    out = {"insert": [], "update": []}
    for t in schema.triggers.values():
        if t["table"] != TABLE or t["fn"] not in schema.fns or schema.fns[t["fn"]] is None:
            continue
        if t["when"] is not None:
            raise Undecided("conditional trigger")
        if not t["row"]:
            continue
        ev = t["events"]
        sts, ch, keys = notified(schema.fns[t["fn"]])
        for k in out:
            if re.search(r"\b%s\b" % k, ev):
                # UPDATE OF columns: must name both columns that make a job runnable
                om = re.search(r"update of ([\w, ]+?)(?: or |$)", ev)
                if k == "update" and om and not {"status", "scheduled_at"} <= {x.strip() for x in om.group(1).split(",")}:
                    continue
                out[k].append((sts, ch, keys))
    return out
