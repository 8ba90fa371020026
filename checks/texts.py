"""Texts: one line per rule (copied into the evidence), technique and level notes of the manifest."""

TECH = "guarded value-flow analysis (abstract interpretation to a fixpoint) over rustc MIR"
TECHNIQUE = {
    "C21": "compile-fail witnesses with compiling twins, type- and borrow-checked by rustc against the current tree's metadata; guarded value-flow analysis over MIR for the run-time half",
    "C27": "lock-order, held-across-wait and poison analysis over the event traces of a guarded value-flow analysis of rustc MIR",
    "C09": "event-order (typestate) analysis over the paths of a guarded value-flow analysis of rustc MIR",
    "C17": "event-order (typestate) analysis over the paths of a guarded value-flow analysis of rustc MIR",
    "C30": "client functions using every form of the assertion, expanded and type-checked with the current macro (not run), and a guarded value-flow analysis of their MIR",
    "C31": "a client executor that sets nothing, type-checked against the current tree (not run), and constant and value-flow evaluation over its MIR",
    "C25": "interval and order reasoning over the paths of a guarded value-flow analysis of rustc MIR, with a may-panic effect analysis",
}

LEVEL_NOTE = (
    "Static: every path of the operation is analysed on the type-checked MIR of the current tree, for symbolic stores and arguments, "
    "loops by fixpoint; each path must satisfy the rule. Trusted: the MIR extractor, the hand written models of std, tokio, futures and chrono calls, "
    "and the algebra of the term domain. Constructs outside the models are reported in the evidence as undecided and raise no alarm."
)
NOTES = {
    "C21": "The quantifier over programs is covered by one witness per public call that could break the typestate, including ones generic over the data type.",
}

NOT_APPLICABLE = {
    "C28": "Liveness under unbounded schedules and wall-clock time: depends on the fairness of the tokio scheduler and on how long user code runs, which no static argument over this source can bound.",
    "C29": "The code contains no recovery path for jobs left in execution by a dead process (a documented gap of the library); there is no construct to analyse.",
}

RULES = {
    "analysis": "every construct met is one the analysis models",
    "anchor": "the public operation named by the property exists",
    "mem-claim-atomic": "selection of a runnable job, the write of status executing and the copy handed out happen in one write-locked section of the job store",
    "mem-claim-eligible": "the selection filter is equivalent to: same executor, status scheduled or retryable, scheduled at most 100 ms ahead",
    "mem-claim-order": "the comparator (or minimum) that selects the claimed job never prefers a job dominated in (scheduled time, priority)",
    "mem-claim-writes": "claiming writes exactly attempted_at=now, attempt+1, status executing, on the selected job",
    "mem-conflict-resolution": "on a conflict exactly the selected fields of the existing job are written, under the replacement statuses only",
    "mem-enqueue-fields": "each field of the inserted job is the namesake field of the request, bookkeeping fields have their initial values, the id is fresh",
    "mem-locks": "no await, send on a bounded channel or blocking call while a store lock is held; acquisition order is acyclic and never re-entrant",
    "mem-not-found": "the path on which no stored job has the addressed id returns job-not-found with that id and writes nothing; a path returning success wrote",
    "mem-notify": "on every success path that makes a job runnable or moves its time, all senders registered for its executor are sent to after the write, unless paused",
    "mem-poison": "a poisoned lock leads to an error return in every job operation, never to a panic",
    "mem-prune": "the set of removed jobs is equivalent to the one the rule describes, per status, kind of limit and executor filter",
    "mem-query": "the filter a query compiles to is equivalent to the boolean meaning of the query",
    "mem-transition": "the transition writes exactly its fields with the documented values, on the job with the addressed id",
    "mem-unique-atomic": "lookup and insert or replace happen in one write-locked section; insert only if nothing matches; the returned id is that of the stored job",
    "mem-unique-criteria": "the conflict predicate is equivalent to the conjunction of the constraints present",
    "mem-unique-key-stored": "the key the lookup compares with is the key stored at insertion",
    "mem-update": "update writes exactly the six user-editable fields of the addressed job with the given values",
    "mem-wait": "subscription is registered before the first look, every wait is preceded by a fresh look, is a select over the notification and a bounded sleep",
    "pg-claim-tried": "before every wait the stream has sent its claiming statement, or read that no runnable job of its executor is stored or that the earliest is not due yet",
    "mem-claim-tried": "before every wait the stream has either found no due runnable job of its executor under the lock, or read an earliest runnable one that is not due yet",
    "executor-scope": "the backend query issued is equivalent to executor-equality and the caller's query, and every job it returns is in the answer",
    "query-constructor": "each public query constructor denotes the form it is named after",
    "equality": "the comparison of two job ids answers whether their numbers are equal, that of two statuses whether they are the same status (each pair): lookups, membership and matching all rest on it",
    "assertion": "for each documented form (who is asked, how many, which conditions, with and without a last comma) a client function: it asks the named backend for exactly the jobs satisfying every stated condition, and its passing and failing paths split on the number of jobs answered as the form says",
    "defaults": "for a client executor that sets nothing: no timeout, no concurrency limit, not blocking, no uniqueness, a positive number of attempts; its backoff has the same guarded values, path by path, as the documented strategy; the list of all statuses has each variant once",
    "api-errors": "each failure seen on a path (backend answer, encoding, decoding, missing global backend) is the error that path returns; success needs the backend's own success",
    "api-update": "the job handed to the backend's update equals the caller's, field by field",
    "backoff-config": "each configuration call sets its own bound and keeps the others",
    "backoff-order": "value, maximum, offset, jitter and minimum are combined in the documented order on every path",
    "backoff-total": "no path of the computation can panic or overflow, for every attempt number and configuration",
    "backoff-value": "the strategy's value is the documented function of the attempt",
    "builder-defaults": "a fresh builder holds the documented defaults",
    "builder-enqueue": "what enqueue hands to the backend is, setting by setting, the builder's value or the executor's default",
    "builder-setters": "a builder call changes its own setting to the given value and no other setting",
    "compile-fail": "the misusing client program is rejected by the type and borrow checker at the misused statement, and its correct twin is accepted",
    "convert": "each field of the converted job is its namesake, unchanged or converted without loss, or the conversion fails",
    "criteria-builder": "each constructor and chaining call of uniqueness criteria sets exactly the constraint it names; a key is the same function of the value in all of them",
    "cron-runner": "the cron executor runs its own loop with the schedule, time zone, data and backend it was given, and also the executor",
    "cron-tick": "each tick of the schedule enqueues exactly one job with the given data, at that tick, unique on executor, data and time; then waits for the tick; an enqueue error does not end the loop",
    "forward": "each operation of the pointer implementation is one call of the same operation on the pointee with the same arguments, whose result is returned",
    "global-backend": "what is handed out is what was stored; storing succeeds only into an empty cell and otherwise fails with an error",
    "mem-attempts": "a transition changes the attempt count or budget exactly as documented: snooze gives one attempt back, rerun grants one, others change neither",
    "mem-attempts-reachable": "the transition has a successful path",
    "mem-claim-handed": "the job handed to the runner carries the fields as stored by the claim",
    "mem-claim-complete": "when a look at the store claims nothing, no job of the executor is due and runnable",
    "runner-subscribes": "the runner started for an executor subscribes, on the instance's backend, to the jobs of exactly that executor's name",
    "mem-claim-attempt": "claiming adds exactly one to the attempt count",
    "mem-transition-reachable": "the transition has a successful path",
    "mem-update-reachable": "update has a successful path",
    "pruner-builder": "each constructor and chaining call of a prune rule sets status, limit and executor filter as named and keeps the rest",
    "pruner-config": "the configuration keeps every rule given and the limit",
    "pruner-tick": "each tick prunes with every configured rule once, under the configured limit; a failing rule stops neither the others nor the loop",
    "replace-builder": "each constructor and chaining call of a replacement selects exactly the field it names",
    "runner-final": "a failed attempt is discarded when attempt >= maximum and otherwise retried, at the backoff computed for that job",
    "runner-limit": "the stream of jobs is processed by a concurrency-limited combinator with the executor's own maximum, an execution counting until its outcome is recorded; blocking executors run on the blocking pool",
    "runner-outcome": "on every path from a claimed job exactly one outcome call is made, with that job's id and the arguments its outcome dictates",
    "runner-survives": "user code runs inside a spawned task only; no path from a stream item, decode failure, panic or backend error ends or panics the runner",
    "runner-timeout": "the execution is wrapped in a timeout of exactly the requested duration when one is requested, and in none otherwise; elapsing is recorded as a timeout failure",
    "shutdown-loop": "every wait of the loop also waits for cancellation, which ends the loop; nothing in flight is dropped",
    "shutdown-signal": "graceful shutdown and dropping the guard cancel the instance's token",
    "shutdown-token": "every loop is started with (a clone or child of) the instance's own token",
    "pg-transition": "the UPDATE a transition issues sets exactly its columns to the documented values, on the row with the addressed id",
    "pg-attempts": "the UPDATE of a transition changes attempt or max_attempts exactly as documented",
    "pg-claim-atomic": "a claim is one UPDATE … WHERE id IN (SELECT … LIMIT 1 FOR UPDATE SKIP LOCKED) that also returns the row",
    "pg-claim-attempt": "the claiming UPDATE sets attempt to attempt + 1",
    "pg-claim-writes": "the claiming UPDATE sets status executing, attempted_at now and attempt + 1 and nothing else",
    "pg-claim-eligible": "the WHERE clause of the claim is equivalent to: same executor, status scheduled or retryable, due within 100 ms",
    "pg-claim-order": "the ORDER BY of the claim never prefers a dominated job",
    "pg-update": "the UPDATE of update sets exactly the six user-editable columns to the given values, on the addressed row",
    "result-from-error": "an error turned into an execution result is the failure carrying that error",
    "pg-setup": "connecting, listening and migrating succeed only where each of their database operations succeeded",
    "pg-errors": "zero affected rows is returned as job-not-found with the id, each failing statement as an error, success only after the statement succeeded",
    "pg-unique-atomic": "lookup, insert and replacement run in one transaction under an advisory lock taken first, committed before success is returned",
    "pg-unique-criteria": "the WHERE clause of the lookup is equivalent to the conjunction of the constraints present",
    "pg-unique-key-stored": "the key bound in the lookup is the key stored by the INSERT",
    "pg-conflict-resolution": "the UPDATE on a conflict sets exactly the selected columns of the found row, under the replacement statuses only",
    "pg-enqueue-fields": "each column of the INSERT is bound to the namesake field of the request",
    "pg-prune": "the rows the DELETE removes are the ones the rule describes, per status, kind of limit and executor filter",
    "pg-query": "the WHERE clause a query compiles to, with SQL precedence, is equivalent to the boolean meaning of the query; every row is returned",
    "pg-listen": "the migrations' triggers announce every inserted or updated row that is scheduled or retryable; the listener hears that channel and wakes every stream registered for the announced executor",
    "pg-error-type": "each kind of failure is written to the database under the name it is read back by",
    "pg-wait": "every wait of the stream is preceded by a failed claim, is a select over the notification and a bounded sleep no longer than the time to the earliest runnable row",
}
