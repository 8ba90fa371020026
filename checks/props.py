"""Which rules decide which property."""
from . import api, backoff, build, claim, core, mem, pg, prune, query, runner, ticker, uniq, witness, probe
from .core import finish

from .texts import TECH


def c01(ctx):
    runner.outcome_recorded(ctx)
    api.results(ctx)


def c02(ctx):
    runner.budget(ctx)
    mem.transitions(ctx, ("attempt", "max_attempts"), "mem-attempts")
    claim.claim_writes(ctx, "mem-claim-attempt", only="attempt")
    claim.handed_out(ctx, "mem-claim-handed", ("attempt", "max_attempts"))
    pg.transitions(ctx, ("attempt", "max_attempts"), "pg-attempts")
    pg.claim(ctx, "pg-claim-attempt", "attempt")


def c18(ctx):
    runner.survives(ctx)


def c19(ctx):
    runner.concurrency(ctx)


def c20(ctx):
    runner.timeouts(ctx)


def c17(ctx):
    ticker.shutdown(ctx)


def c22(ctx):
    ticker.cron(ctx)


def c23(ctx):
    ticker.pruner(ctx)


def c13(ctx):
    mem.transitions(ctx)
    claim.claim_writes(ctx, "mem-claim-writes")
    api.equality(ctx)
    pg.transitions(ctx)
    pg.claim(ctx, "pg-claim-writes", "writes")
    pg.error_types(ctx)


def c14(ctx):
    mem.update(ctx)
    api.equality(ctx)
    api.api_update(ctx)
    pg.update(ctx)


def c24(ctx):
    mem.not_found(ctx)
    api.equality(ctx)
    api.api_errors(ctx)
    pg.errors(ctx)
    pg.setup(ctx)


def c06(ctx):
    uniq.atomic(ctx)
    pg.unique(ctx, "pg-unique-atomic", "atomic")


def c07(ctx):
    uniq.conflict(ctx)
    api.equality(ctx)
    uniq.stored_key(ctx)
    build.criteria(ctx)
    pg.unique(ctx, "pg-unique-criteria", "conflict")
    pg.unique(ctx, "pg-unique-key-stored", "key")


def c08(ctx):
    uniq.resolution(ctx)
    api.equality(ctx)
    build.replace(ctx)
    pg.resolution(ctx)


def c15(ctx):
    uniq.stored_fields(ctx)
    claim.handed_out(ctx, "mem-claim-handed", ("id", "executor", "data", "metadata", "tags", "priority", "attempt", "max_attempts", "errors", "scheduled_at", "inserted_at", "status"))
    api.conversions(ctx)
    pg.stored_fields(ctx)
    pg.error_types(ctx)


def c12(ctx):
    prune.rules(ctx)
    api.equality(ctx)
    build.pruners(ctx)
    pg.pg_prune(ctx)


def c10(ctx):
    query.mem_query(ctx)
    api.equality(ctx)
    query.constructors(ctx)
    pg.pg_query(ctx)


def c11(ctx):
    query.scoped(ctx)


def c03(ctx):
    claim.atomic_claim(ctx)
    pg.claim(ctx, "pg-claim-atomic", "atomic")


def c04(ctx):
    claim.eligible(ctx)
    api.equality(ctx)
    runner.subscribes(ctx)
    pg.claim(ctx, "pg-claim-eligible", "eligible")
    claim.attempted(ctx)
    pg.attempted(ctx)


def c05(ctx):
    claim.order(ctx)
    pg.claim(ctx, "pg-claim-order", "order")


def c09(ctx):
    claim.notifies(ctx)
    claim.waits(ctx)
    claim.eligible(ctx, "mem-claim-complete", complete=True)
    claim.attempted(ctx)
    pg.waits(ctx)
    pg.attempted(ctx)
    pg.listens(ctx)


def c27(ctx):
    claim.lock_discipline(ctx)
    claim.poison(ctx)


def c16(ctx):
    api.builder(ctx)
    build.criteria(ctx)
    build.replace(ctx)
    build.pruners(ctx)


def c26(ctx):
    api.forwarding(ctx)
    api.global_same(ctx)


def c21(ctx):
    witness.run(ctx)
    api.global_same(ctx)


def c25(ctx):
    backoff.strategies(ctx)
    backoff.compose(ctx)
    backoff.config(ctx)
    backoff.default(ctx)


def c30(ctx):
    probe.assertion(ctx)


def c31(ctx):
    probe.defaults(ctx)


PROPS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}


def run(ctx, t0):
    ctx.attempt("analysis", "the whole of " + ctx.prop, lambda: PROPS[ctx.prop](ctx))
    return finish(ctx, "other", TECH, [], t0)
