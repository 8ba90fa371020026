"""Compile-fail witnesses: client programs that misuse the API, each next to the correct twin that differs in one place.

Every program is type- and borrow-checked (never built or run) by rustc against the metadata of the current tree.  A misuse that
compiles is a violation, as is a twin that does not; an error anywhere but in the misused statement decides nothing."""
import glob
import json
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from .core import *

PRELUDE = """
#![allow(unused, unreachable_code, clippy::all)]
use rexecutor::backend::memory::InMemoryBackend;
use rexecutor::prelude::*;
use rexecutor::{GlobalSet, GlobalUnset};
use std::{future::Future, pin::Pin};
macro_rules! ex { ($n:ident, $d:ty) => {
    pub struct $n;
    impl Executor for $n {
        type Data = $d;
        type Metadata = String;
        const NAME: &'static str = stringify!($n);
        fn execute<'t>(job: Job<$d, String>) -> Pin<Box<dyn Future<Output = ExecutionResult> + Send + 't>> {
            Box::pin(async { ExecutionResult::Done })
        }
    }
} }
"""

SETTERS = {
    "": "", "with_metadata": ".with_metadata(String::new())", "with_max_attempts": ".with_max_attempts(3)", "schedule_at": ".schedule_at(todo!())",
    "schedule_in": ".schedule_in(todo!())", "add_tag": '.add_tag("t")', "with_tags": '.with_tags(vec!["t"])', "unique": ".unique(todo!())",
    "with_priority": ".with_priority(1)",
}
TYPES = ["String", "u32", "i64", "bool", "f64", "char", "Vec<u8>", "Vec<String>", "(u8, u8)", "Box<str>", "std::collections::HashMap<String, u8>",
         "std::collections::BTreeMap<String, String>", "[u8; 3]", "Box<u32>", "Result<u8, u8>"]
CHAINS = {
    "": "", "with_executor": ".with_executor::<E>()", "with_cron_executor": ".with_cron_executor::<E>(todo!(), todo!())",
    "with_cron_executor_for_timezone": ".with_cron_executor_for_timezone::<E, _>(todo!(), todo!(), TZ)", "with_job_pruner": ".with_job_pruner(todo!())",
}


def programs():
    out = []

    def add(group, name, items, good, bad, sig="async fn f()"):
        out.append((group, name, items, sig, good, bad))

    for end, args in (("enqueue", ""), ("enqueue_to_backend", "&InMemoryBackend::new()")):
        for n, s in SETTERS.items():
            add("mandatory-data", f"{end} after {n or 'builder'}", "ex!(E, String);",
                f"let _ = E::builder(){s}.with_data(todo!()).{end}({args}).await;", f"let _ = E::builder(){s}.{end}({args}).await;")
            if n:
                add("mandatory-data", f"{end} with data, then {n}", "ex!(E, String); ex!(O, Option<String>); ex!(U, ());",
                    f"let _ = E::builder().with_data(todo!()){s}.{end}({args}).await; let _ = O::builder(){s}.{end}({args}).await; let _ = U::builder(){s}.{end}({args}).await;", None)
        for t in TYPES:
            add("mandatory-data", f"{end} for {t}", f"ex!(E, {t});",
                f"let _ = E::builder().with_data(todo!()).{end}({args}).await;", f"let _ = E::builder().{end}({args}).await;")
        for bound in ("'static + Send", "'static + Send + Sync + Default + Clone + std::fmt::Debug + Eq + Ord + std::hash::Hash", "'static + Send + Sync + Copy + Default"):
            add("mandatory-data", f"{end} for every data type that is {bound}", "",
                f"let _ = E::builder().with_data(todo!()).{end}({args}).await;", f"let _ = E::builder().{end}({args}).await;",
                f"async fn f<E: Executor + 'static>() where E::Data: {bound}, E::Metadata: Send")
    items = "ex!(E, String);\nfn new() -> Rexecutor<InMemoryBackend, GlobalUnset> { todo!() }\nfn set() -> Rexecutor<InMemoryBackend, GlobalSet> { todo!() }"
    for n, s in CHAINS.items():
        z = s.replace("TZ", "chrono::Utc")
        add("one-global", f"set_global_backend after {n or 'set_global_backend'}", items,
            f"let _ = new(){z}.set_global_backend();", f"let _ = set(){z}.set_global_backend();", "fn f()")
    add("one-global", "set_global_backend twice in a row", items,
        "let _ = new().set_global_backend().unwrap();", "let _ = new().set_global_backend().unwrap().set_global_backend();", "fn f()")
    add("one-global", "keeping the instance that set the backend", items,
        "let r = new(); let r = r.set_global_backend();", "let r = new(); let s = r.set_global_backend(); let _ = r.set_global_backend();", "fn f()")
    add("one-global", "turning a set instance back by hand", items,
        "let r = new(); let _: &Rexecutor<InMemoryBackend, GlobalUnset> = &r;", "let r = set(); let _: &Rexecutor<InMemoryBackend, GlobalUnset> = &r;", "fn f()")
    uses = {
        "graceful_shutdown": "r.graceful_shutdown();", "drop_guard": "let _g = r.drop_guard();", "with_executor": "let _ = r.with_executor::<E>();",
        "with_cron_executor": "let _ = r.with_cron_executor::<E>(todo!(), todo!());", "with_job_pruner": "let _ = r.with_job_pruner(todo!());",
    }
    for start in ("new", "set"):
        for end in ("graceful_shutdown", "drop_guard"):
            for n, u in uses.items():
                add("used-after-shutdown", f"{n} after {end} ({start})", items,
                    f"let r = {start}(); {u}", f"let r = {start}(); {uses[end]} {u}", "fn f()")
        add("used-after-shutdown", f"a second handle on the same instance ({start})", "fn dup<T: Clone>(t: &T) -> T { t.clone() }\n" + items,
            f"let r = {start}(); let s = &r;", f"let r = {start}(); let s = dup(&r);", "fn f()")
    add("used-after-shutdown", "set_global_backend after graceful_shutdown", items,
        "let r = new(); let _ = r.set_global_backend();", "let r = new(); r.graceful_shutdown(); let _ = r.set_global_backend();", "fn f()")
    add("used-after-shutdown", "set_global_backend after drop_guard", items,
        "let r = new(); let _ = r.set_global_backend();", "let r = new(); let _g = r.drop_guard(); let _ = r.set_global_backend();", "fn f()")
    return out


def env():
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


class Compiler:
    def __init__(self, work):
        tgt = os.path.join(work, "tgt", "debug")
        metas = [p for pat in ("build/rexecutor/*/out", "deps") for p in glob.glob(os.path.join(tgt, pat, "librexecutor-*.rmeta"))]
        if len(metas) != 1:
            raise Undecided(f"{len(metas)} metadata files of the library")
        self.lib = metas[0]
        dirs = sorted({os.path.dirname(p) for pat in ("build/*/*/out", "deps") for p in glob.glob(os.path.join(tgt, pat, "lib*.*"))})
        self.args = [x for d in dirs for x in ("-L", "dependency=" + d)]
        self.chrono = [p for pat in ("build/chrono/*/out", "deps") for p in glob.glob(os.path.join(tgt, pat, "libchrono-*.rmeta"))]
        self.find = lambda n: [p for pat in (f"build/{n}/*/out", "deps") for p in glob.glob(os.path.join(tgt, pat, f"lib{n}-*.rmeta"))]
        self.scratch = tempfile.mkdtemp(prefix="witness", dir=work)
        self.n = 0

    def check(self, i, text):
        if "chrono::" not in text:
            return self.check1(i, text, [])
        # the build may hold several copies of chrono: the one the library uses is the one whose types it accepts
        best = None
        for p in self.chrono:
            r = self.check1(i, text, ["--extern", "chrono=" + p])
            if r is not None and (best is None or len(r) < len(best)):
                best = r
        return best

    def check1(self, i, text, more):
        """-> list of (code, first line, last line, message) of errors; None if the compiler itself failed"""
        src = os.path.join(self.scratch, f"w{i}.rs")
        with open(src, "w") as f:
            f.write(text)
        r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", f"w{i}", "--emit=metadata", "--error-format=json",
                            "--extern", "rexecutor=" + self.lib, *more, "-o", os.path.join(self.scratch, f"w{i}.rmeta"), *self.args, src],
                           capture_output=True, text=True, env=env())
        errs = []
        for l in r.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("level", "").startswith("error") and m.get("spans"):
                sp = next((s for s in m["spans"] if s["is_primary"]), m["spans"][0])
                while sp.get("expansion") and not sp["file_name"].endswith(".rs"):
                    sp = sp["expansion"]["span"]
                errs.append(((m.get("code") or {}).get("code"), sp["line_start"], sp["line_end"], m["message"]))
            elif m.get("level") == "error: internal compiler error":
                return None
        if r.returncode != 0 and not errs:
            return None
        if r.returncode == 0:
            return []
        return errs


NAMES = ("E0412", "E0425", "E0432", "E0433", "E0405", "E0463", "E0603", "E0635")


def text(items, sig, body):
    """-> program, line of the body"""
    head = PRELUDE + items + "\n" + sig + " {\n"
    return head + body + "\n}\n", head.count("\n") + 1


def run(ctx, rule="compile-fail"):
    ctx.attempt(rule, "witness programs", lambda: _run(ctx, rule))


def _run(ctx, rule):
    work = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "work")
    c = Compiler(work)
    try:
        jobs = []
        for i, (group, name, items, sig, good, bad) in enumerate(programs()):
            jobs.append((i, group, name, "good", *text(items, sig, good)))
            if bad:
                jobs.append((i, group, name, "bad", *text(items, sig, bad)))
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda j: c.check(f"{j[0]}{j[3]}", j[4]), jobs))
    finally:
        import shutil
        shutil.rmtree(c.scratch, ignore_errors=True)
    twin = {}
    for j, r in zip(jobs, res):
        if j[3] == "good":
            twin[j[0]] = r
    ctx.programs = len(jobs)
    for (i, group, name, kind, src, line), r in zip(jobs, res):
        where = f"{group}: {name}"
        if kind == "good":
            if r is None:
                ctx.unk(rule, where, "the compiler gave no answer")
            else:
                ctx.check(rule, where + " (correct twin)", not r, lambda: f"the correct program is rejected: {r[0][0]} {r[0][3][:150]}")
            continue
        if r is None:
            ctx.unk(rule, where, "the compiler gave no answer")
        elif not r:
            ctx.bad(rule, where, "this misuse compiles: " + src.splitlines()[line - 1])
        elif twin[i]:
            ctx.unk(rule, where, "the twin does not compile either")
        elif all(a <= line <= b for _, a, b, _ in r) and not any(code in NAMES for code, *_ in r):
            ctx.ok(rule, where)
        else:
            ctx.unk(rule, where, f"rejected for another reason: {r[0]}")
