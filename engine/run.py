"""Entry points: analyse a function (and the future it returns) from symbolic arguments."""
from .terms import *
from .interp import Interp, St, Out, evlist, Bail
from . import models
from . import sqlx


class Site:
    pass


def entry(I, key, args, await_=True):
    b = I.F.body(key)
    st = St()
    outs = I.run_fn(st, key, args)
    if not await_:
        return outs
    site = (b, 0, b.bbs[0])
    res = []
    for o in outs:
        if o.kind != "ret":
            res.append(o)
            continue
        res += models.run_future(I, o.st, o.val, site)
    return res


def show_event(e, ind=0):
    pad = "  " * ind
    out = []
    k = e.a[0]
    if k == "loop":
        out.append(f"{pad}loop {e.a[1]}")
        for w, i in e.a[3]:
            out.append(f"{pad}   init {show(w)} = {show(i)[:300]}")
        for t in e.a[2]:
            out.append(f"{pad}   back when {[(show(a), show(s)) for a, s in t.a[1]]}")
            for x in t.a[2]:
                out += show_event(x, ind + 3)
            for w, v in t.a[3]:
                out.append(f"{pad}      upd {show(w)} := {show(v)[:300]}")
        return out
    subs = None
    if k == "spawn":
        out.append(f"{pad}spawn {e.a[1]} {show(e.a[2])}")
        subs = e.a[3]
    elif k == "sloop":
        out.append(f"{pad}sloop src={show(e.a[1])[:400]} stages={show(e.a[2])[:400]} limit={show(e.a[3])} kind={e.a[5]}")
        subs = e.a[4]
    elif k == "each":
        out.append(f"{pad}each src={show(e.a[1])[:300]} tag={show(e.a[2])} inits={show(e.a[4])[:200]}")
        subs = e.a[3]
    if subs is not None:
        for s in subs:
            out.append(f"{pad}   sub {s.a[0]} when {[(show(a), show(x)) for a, x in s.a[1]]} -> {show(s.a[3])[:300]} upd={show(s.a[4])[:300]} ew={show(s.a[5])[:300]}")
            for x in s.a[2]:
                out += show_event(x, ind + 3)
        return out
    return [pad + show(mk("t", *e.a))[:900]]


def show_out(o, n=0):
    out = [f"--- path {n}: {o.kind} {show(o.val)[:700] if o.val is not None else show(o.info) if o.info is not None else ''}"]
    for a, s in o.st.facts.items():
        out.append(f"    if {show(a)[:500]} ∈ {show(s)}")
    for e in evlist(o.st.ev):
        out += show_event(e, 2)
    return "\n".join(out)
