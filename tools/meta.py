#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q, A, J, K, P, B = ('aj_core/src/queue.rs', 'aj_core/src/aj.rs', 'aj_core/src/job/mod.rs', 'aj_core/src/job/job_context.rs',
                    'aj_core/src/plugin/mod.rs', 'aj_core/src/backend/types.rs')
PP, RT, EX, LIB, MEM, RED, UT, ERR, MAC, AJ = (
    'aj_core/src/plugin/job_plugin.rs', 'aj_core/src/job/retry.rs', 'aj_core/src/job/executable.rs', 'aj_core/src/lib.rs',
    'aj_core/src/backend/mem.rs', 'aj_core/src/backend/redis.rs', 'aj_core/src/util/mod.rs', 'aj_core/src/error.rs',
    'aj_macro/src/lib.rs', 'aj/src/lib.rs')

PATHS = 'path-sensitive abstract interpretation of MIR (all paths, loops to a fixpoint)'
TYPESTATE = 'typestate over all MIR paths: job status x membership in the status lists'

PROPS = [
 ('C01', 'An accepted submission is stored and queued exactly once',
  'When a job whose id is not stored yet is submitted and the call succeeds, a waiting record with exactly the submitted data, id, schedule and retry policy is stored under that id, and the id is in the waiting list of its queue exactly once. The call returns the id of the submitted job. No submission is refused while the back end works, unless its queue name belongs to another job type. A fire-and-forget submission (just_run) made while the engine runs reaches its queue like any other.',
  ['inputs', 'histories', 'configurations'], 'every job, id, schedule, retry policy and submission configuration, every path of the submission',
  'Tests submit a few jobs through one path; a lost push or field shows only for certain schedules, ids or configurations.',
  [Q, A, J, LIB, B], [('submission handler', Q + ': Handler<Enqueue>, run_with_config, enqueue'), ('record write', B + ': upsert_to_storage')],
  TYPESTATE),
 ('C02', 'The stored status of a job and the lists its id is in always agree',
  'After every request and after every execution that meets no back-end failure, the id of a job is exactly once in the list of its stored status and in no other list (a canceled job may be in no list). All entry points use the same list for the same status of a queue.',
  ['histories', 'inputs'], 'every stored status, every request or execution outcome, every path; by induction every history of such operations',
  'The invariant is over all histories; tests look at a status or a count after one operation.',
  [Q, J], [('list moves', Q + ': enqueue, re_enqueue, mark_job_is_*, cancel_job, pick_ready_jobs'), ('status writes', J + ': enqueue, process, finish, cancel, fail')],
  TYPESTATE),
 ('C03', 'Requests leave a running job alone',
  'While a job is stored as running, submitting, updating, cancelling or retrying its id changes neither its record nor any list, and a retry request answers that nothing was retried.',
  ['schedules', 'histories'], 'every request that may meet a running job, on every path',
  'Requires a request during an execution; tests rarely interleave requests with running jobs.',
  [Q, A], [('guards', Q + ': run_with_config, cancel_job, retry_job')], TYPESTATE),
 ('C04', 'A job starts only when it is due, and due jobs are not passed over',
  'A job with a start time is never started before that time; a recurring job is never started before its next occurrence, after its end time or beyond its maximal repeat count. A due job which a polling step reaches while a slot is free is started, with its data, schedule and retry policy unchanged.',
  ['inputs', 'schedules'], 'every clock value, start time, next occurrence, repeat count and bound (symbolic, compared as an order), every scan position',
  'Clock, start time and bounds range over all values and their boundary orders; tests sleep around one of them.',
  [J, Q, K, UT], [('readiness', J + ': is_ready'), ('scan', Q + ': pick_ready_jobs')], 'path conditions at claim sites checked against the order of symbolic time values'),
 ('C05', 'Recurring jobs recur until their bounds, then conclude',
  'A recurring job that ran and is not retried waits again for the first occurrence of its expression after now, with its repeat counter increased by one and everything else of its recurrence and its retry policy kept, whenever its bounds allow one. Without a further occurrence, beyond its maximal count, or when the next occurrence is after its end time it is concluded like any other job; jobs that are not recurring never recur.',
  ['inputs', 'histories'], 'every expression, counter, bound and outcome of the schedule, every path of an execution',
  'Counter, bounds and exhausted schedules combine; tests run one simple expression a couple of times.',
  [J, K, Q], [('next occurrence', J + ': next_tick'), ('conclusion', Q + ': execute_job'), ('construction', K + ': JobType::new_cron')], PATHS),
 ('C06', 'Retry policy is applied exactly',
  'A run whose output is a failure is put back to wait exactly when the job has a retry policy with tries left (or its own policy names a time); successful runs and jobs without tries are not retried. Each retry uses one try, leaves the limits unchanged and waits the interval of the policy, or its initial backoff times two to the number of used tries without overflowing. A policy asked for a given time answers from that time. A retried recurring job keeps its recurrence.',
  ['inputs', 'histories'], 'every policy, number of used tries, limit and output judgement',
  'Off-by-one and overflow in counters show only at particular limits or after many retries.',
  [RT, EX, Q], [('policy', RT + ': should_retry, retry_at'), ('default policy', EX + ': retry_at'), ('application', Q + ': execute_job')], PATHS),
 ('C07', 'Every execution is concluded exactly once',
  'Every execution ends with the job finished, failed or waiting again, stored exactly once, and its entry removed from the running list. A job that failed and is not put back ends failed, one that did not fail and is not put back ends finished. When storing the outcome or putting the job back fails, the job is marked failed and its slot is freed; failing to add it to the list of its outcome does not keep its slot.',
  ['inputs', 'fault_sequences'], 'every outcome of the job, retry policy, recurrence and single back-end failure',
  'Outcome x recurrence x retry x failing back-end call is a product no test suite enumerates.',
  [Q, J], [('conclusion', Q + ': execute_job_task, execute_job, mark_job_is_finished, mark_job_is_failed, re_enqueue')], TYPESTATE),
 ('C08', 'The concurrency limit of a queue is never exceeded',
  'At every start of a job the number of running jobs of the queue, including the one started, is at most the configured limit. Reconfiguring a queue replaces its limit and polling interval by exactly the given ones.',
  ['schedules', 'configurations', 'histories'], 'every limit, number of running and waiting jobs, and number of starts in one polling step',
  'The bound is over all combinations of limit, running count and backlog.',
  [Q, A], [('free slots', Q + ': pick_jobs_to_process, pick_ready_jobs'), ('reconfiguration', Q + ': Handler<UpdateWorkQueue>')], 'linear path conditions over counters at claim sites'),
 ('C09', 'A claimed job is started exactly once, with its stored data',
  'The entry that moves to the running list is the one whose job was read, found due and stored as running; every job moved there is started exactly once by the same polling step, also when a later back-end call of that step fails. No other job is started.',
  ['schedules', 'fault_sequences', 'inputs'], 'every backlog up to the peeled bound, every failing back-end call, all loop iterations for the start loop',
  'Misalignment needs several entries of mixed readiness; the failure cases need a fault at a particular call.',
  [Q], [('scan', Q + ': pick_ready_jobs, try_pick_specific_ready_jobs'), ('start', Q + ': process_jobs, execute_job_task')], 'typestate of queue entries over loop-peeled MIR paths'),
 ('C10', 'Polling never stops and every scan ends',
  'However a polling step ends, including every back-end failure, exactly one next polling step is scheduled, after the configured interval, and a started queue polls from its start. A scan cannot go on without end while the back end gives it nothing new, an entry that is not due does not keep the scan from the entries behind it, a running job does not hold up the polling of its queue, and no polling step panics.',
  ['schedules', 'fault_sequences'], 'every path of a polling step, every failing back-end call',
  'A missed reschedule shows only when one particular call fails once.',
  [Q], [('polling', Q + ': start_with_name, process_jobs'), ('scan loop', Q + ': pick_ready_jobs')], 'must-reschedule dataflow on all paths; progress per loop back edge'),
 ('C11', 'Cancelling a waiting job prevents it from running; other jobs are unaffected',
  'Cancelling a waiting job stores it as canceled with everything else kept, and takes its id out of the waiting list; cancelling a job that is running, done or unknown changes nothing. The public call acts on the id it was given and reports success when nothing failed.',
  ['histories', 'inputs'], 'every stored status and id', 'Needs every status of the target and a look at all lists.',
  [Q, A, J], [('cancellation', Q + ': cancel_job; ' + J + ': cancel'), ('api', A + ': AJ::cancel_job')], TYPESTATE),
 ('C12', 'Manual retry re-queues exactly the jobs that are done',
  'Retrying a finished, failed or canceled job makes it waiting again exactly once, with data, id, schedule, retry policy and run count kept, and answers true; for a waiting, running or unknown job it changes nothing and answers false.',
  ['histories', 'inputs'], 'every stored status and id', 'Needs every status of the target, including the lists it is left in.',
  [Q, A, J], [('retry', Q + ': retry_job, re_enqueue'), ('api', A + ': AJ::retry_job')], TYPESTATE),
 ('C13', 'Plugins see every run: before it starts and after it ends',
  'Each execution calls the before hook of every registered plugin once before the first step of the job and the after hook once after its last step and before its conclusion is stored, with the id of the job; registering a plugin keeps the ones already registered. A job runs even when its hooks cannot be delivered.',
  ['histories', 'programs', 'configurations'], 'every plugin set, job type and outcome',
  'The existing tests never register several plugins or look at the order of hooks.',
  [P, PP, J], [('hooks', J + ': execute'), ('delivery', P + ': RunHook; ' + PP + ': before_run, after_run, should_run')], PATHS),
 ('C14', 'Every status change is announced, truthfully',
  'Whenever a new status of a job is stored, every registered plugin is told once, after it is stored, with the id of the job and that status; nothing is announced that was not stored.',
  ['histories', 'programs'], 'every request and execution path, every plugin set',
  'Tests never observe the notifications of a whole life cycle.',
  [P, PP, J, Q], [('announcement', J + ': enqueue, process, finish, cancel, fail'), ('delivery', P + ': ChangeStatus')], PATHS),
 ('C15', 'The in-memory back end keeps the list and storage contract',
  'In-memory lists behave as double-ended lists: a push adds one item at the front, a move takes up to the given number of items from one end of one list to one end of another in order and returns them, a removal deletes every copy of exactly that item, a read returns up to the given number of items from one end in order and changes nothing, a count is the length. Storage returns the value last written for that table and key, or nothing, and operations on one list, table or key never affect another.',
  ['inputs', 'histories'], 'every list content, count, direction, name, key and value (symbolic)',
  'Contents, counts and directions are unbounded; tests use lists of up to three items.',
  [MEM, B], [('in-memory back end', MEM + ': impl Backend for InMemory')], 'effect summaries of every MIR path compared with the list contract'),
 ('C16', 'The Redis back end keeps the same contract as the in-memory one',
  'Each Redis operation issues the commands that give the list and storage contract of the back-end interface on the given names, items, counts and directions (a push at the front, an atomic move per item between the given ends, so that no item is lost between two commands, removal of all copies, reads of exactly the asked number of items from the asked end in order, length, set and get of one key). Every Redis failure is reported as an error.',
  ['inputs', 'configurations'], 'every name, item, count and direction, every failing command',
  'The Redis tests are ignored without a server, and sample single counts.',
  [RED, B], [('redis back end', RED + ': impl Backend for Redis, lpush, lmove, lrange, llen, lrem')], 'effect summaries of every MIR path (Redis commands and their operands) compared with the list contract'),
 ('C17', 'In-memory operations are atomic and cannot deadlock',
  'Each in-memory operation takes effect as a whole under one acquisition of the lock of its table: no operation acquires a lock it already holds, releases a lock between reading and writing, or holds two locks at once, and no operation can panic while it holds one.',
  ['schedules'], 'every interleaving of threads using one in-memory back end (per-operation lock discipline on all paths)',
  'Races and self-deadlocks need particular interleavings or paths.',
  [MEM], [('locks', MEM + ': impl Backend for InMemory')], 'lock-set dataflow over all MIR paths'),
 ('C18', 'At most one engine is started, and everybody gets it',
  'Starting the engine while it runs, also concurrently from several threads and with or without an existing runtime, returns the address of the engine already started and starts no second one; a started engine is registered before its start returns and uses the back end it was given.',
  ['schedules', 'histories'], 'every interleaving of starts, with and without a runtime',
  'Needs two starts racing between check and registration.',
  [A], [('start', A + ': AJ::start, start_actor, get_aj_address')], 'check-then-act analysis: registration and check under one lock acquisition on all paths'),
 ('C19', 'Each job type has one queue, and requests reach the queue of their type',
  'For each job type at most one work queue is ever started, also when first submissions are concurrent; submissions, cancellations, retries, lookups and reconfigurations act on the queue of their own job type. Requests for a type without a queue report that none is registered (lookups find nothing) and start none, submissions create it. A submission whose queue name is in use by another job type is refused with an error and changes nothing.',
  ['schedules', 'programs', 'histories'], 'every job type, every interleaving of first submissions (handled one at a time by the engine)',
  'Needs concurrent first submissions, or several job types in one process.',
  [A, Q], [('registry', A + ': register, get_work_queue_address, Handler<InitWorkQueue>'), ('routing', A + ': AJ::*')], 'check-then-act and routing dataflow on MIR paths'),
 ('C20', 'Stored job records read back as what was written',
  'Every field of a job record, its schedule, recurrence, status and retry policy is written under a name and in an encoding (variant, unit of time) which the reader expects for the same field, and no field is skipped on either side, so that a record stored by any operation decodes to the same job up to microseconds.',
  ['inputs', 'programs'], 'every job value: every field of every stored type, every variant',
  'A lossy field is only visible when a restart or a re-read depends on that field.',
  [K, RT, J, B], [('record types', K + ', ' + RT + ', ' + J + ': derived Serialize and Deserialize')], 'writer/reader agreement over the expanded serde implementations (MIR)'),
 ('C21', 'The job macro runs the annotated function with the given arguments',
  'For every annotated function, plain or async, the generated job stores each argument under its own field, executes the function once with its arguments in order and yields its output; its run functions submit one job with the given context, and its queue is named after its own type.',
  ['programs', 'inputs'], 'every function signature the macro accepts, represented by a witness crate with plain/async, no/one/several same-typed arguments, returning and non-returning functions',
  'Swapped or dropped arguments of equal type compile; tests only use single-argument jobs.',
  [MAC, AJ, LIB], [('macro expansion', MAC + ': job, background_job_derive')], 'witness crate expanded and type checked against the current tree, dataflow over its MIR'),
 ('C22', 'A failed back-end call is never answered with success',
  'When a back-end call, the encoding of a record or the delivery to the queue fails during a submission, update, cancellation, retry or reconfiguration, the caller gets an error. When the number of running jobs cannot be read, no job is started.',
  ['fault_sequences', 'inputs'], 'every single failing call on every path of every request',
  'Needs a fault injected at each call of each path.',
  [Q, A, B, J, ERR], [('error propagation', Q + ', ' + B + ': all ? sites')], 'error-flow analysis: on every path with a failed call the answer is an error'),
 ('C23', 'A panicking job fails alone',
  'When the code of a job panics, that job ends failed and its running slot is freed, and the queue, the engine and other jobs go on. No path of the engine, the queues or the plugin centre panics by itself while handling messages or polling.',
  ['inputs', 'programs', 'schedules'], 'every call into user code on every path of an execution; every panic site reachable from a message handler or polling step',
  'Needs a panic in each user callback.',
  [Q, J, P], [('containment', Q + ': execute_job_task')], 'unwind-path analysis of MIR'),
 ('C24', 'Updates and re-submissions change exactly what they are asked to',
  'Updating a known job that is not running stores the given data, and the given context when there is one, under the given id, and an update of an unknown job stores nothing. Submitting an id that is already stored replaces its data only if asked to, re-runs it only if asked to and it is done, and keeps a waiting job waiting in its place; no other id is touched. A submission with a configuration is judged by exactly that configuration, and a plain submission replaces the data and re-runs a done job.',
  ['inputs', 'histories', 'configurations'], 'every stored status, submission configuration and context',
  'Status x override x re-run combinations with the resulting lists.',
  [Q, A], [('override', Q + ': run_with_config'), ('update', A + ': AJ::update_job')], TYPESTATE),
 ('C25', 'Looking up a job has no effect and returns the stored job',
  'A lookup writes no record, changes no list, starts and announces nothing, and returns the job stored under exactly that id, or nothing when there is none.',
  ['inputs', 'histories'], 'every id and stored record', 'Absence of effects on all paths cannot be sampled.',
  [Q, A, B], [('lookup', Q + ': get_job, read_job; ' + A + ': AJ::get_job')], 'effect analysis over all MIR paths'),
 ('C26', 'Queues of different job types do not share lists or records',
  'Every list a queue reads or writes carries the name of that queue and of one status; a job asks for the queue name of its own type, queues are started under the name they were asked for, and the records of different job types cannot overwrite each other.',
  ['programs', 'inputs'], 'every queue name, status and job type', 'Needs several job types and colliding ids.',
  [Q, A, B], [('names', Q + ': format_queue_name, storage_name; ' + B + ': STORAGE_HASH')], 'provenance of list and table names at every back-end call site'),
 ('C28', 'Builders keep what they are given',
  'Setting the id, context, schedule, delay, recurrence or retry policy of a job changes exactly that part to the given value and keeps everything else; a new job has a fresh id, waits, has never run, and has no retry policy or schedule. Constructors of schedules, recurrences, retry policies and queue or submission configurations hold exactly the values they are named after; a new recurrence starts at the first occurrence of its expression after now.',
  ['inputs'], 'every argument value and every prior state of the job', 'Each builder must hold for every argument and prior value; tests check one field each.',
  [J, K, RT, Q], [('builders', J + ': Job::new, set_*, schedule_at, delay, cron, retry'), ('constructors', K + ', ' + RT + ', ' + Q)], 'symbolic effect summaries of constructors on MIR paths'),
 ('C29', 'An execution runs the job body once, in order, and stores what it leaves',
  'A started job runs its pre step, its body and its post step once each, in this order, on its own data and context; the output judged and retried on is the one the post step returns; steps a job type does not define do nothing, and a job type that defines no failure never fails. The record stored at the end has the data the execution left, the run count increased by one, and the id and creation time of the job.',
  ['inputs', 'programs'], 'every job type and outcome', 'User steps may change data and output in any way.',
  [J, Q, EX], [('pipeline', J + ': execute'), ('conclusion', Q + ': execute_job')], PATHS),
 ('C30', 'Every status change records its time',
  'Whenever a queue stores a job with a new status, the stored record has the current time in milliseconds as the time of that status (enqueued, run, completed for finished and failed, canceled), and keeps its creation time and its other times.',
  ['histories', 'inputs'], 'every request, polling and execution path that stores a status', 'Tests look at the status, not at the times, and never at those of a whole life cycle.',
  [J, Q], [('stamps', J + ': enqueue, process, finish, cancel, fail')], PATHS),
 ('N01', 'Due jobs of a queue are eventually run in fair order',
  'A due job is started after finitely many polling steps, however many jobs that are not due or newly submitted jobs surround it, and jobs due earlier are not overtaken without bound.',
  ['schedules', 'histories'], 'every arrival sequence', 'Starvation needs unbounded arrival sequences.', [Q], [('scan order', Q + ': pick_ready_jobs')], None),
 ('N02', 'Jobs start soon after they are due',
  'A due job starts within about one polling interval while slots are free.',
  ['schedules'], 'every clock and scheduler behaviour', 'Wall-clock latencies vary with load.', [Q], [('polling', Q + ': process_jobs')], None),
 ('N03', 'Jobs survive a crash of the process',
  'With a durable back end, a job accepted before a crash at any point is run after a restart, including jobs that were running at the crash.',
  ['crash_points'], 'every crash point between two back-end calls', 'Needs a crash between any two calls.', [Q, RED], [('running list', Q + ': pick_ready_jobs')], None),
 ('N04', 'Several processes sharing one Redis run each job once',
  'Two processes working on one queue over the same Redis never start the same job twice and never lose one.',
  ['schedules'], 'every interleaving of two scans', 'Needs particular interleavings of two processes.', [Q, RED], [('claim', Q + ': pick_ready_jobs')], None),
]

NA = {
 'N01': 'A liveness property over unbounded arrival sequences and list contents: a scan may meet any number of undue entries, and no static argument in reach bounds the number of rounds until a given entry is looked at (C04/C09/C10 decide the per-step safety part).',
 'N02': 'Depends on the runtime scheduler, timers and load; nothing in the source bounds it (C10 decides that the configured interval is what is scheduled).',
 'N03': 'The code has no recovery of running jobs at all, and durability is a property of the Redis server and its configuration, not of this source; a static rule would only restate that the feature is missing.',
 'N04': 'The claim is a read, a write and a move over separate Redis commands without a transaction, so the property is false by design for several consumers; which interleavings occur is a runtime quantity of other processes. The code documents no such guarantee.',
}
LEVEL_NOTE = ('Static analysis of the compiler\'s MIR of the current tree; every path of the anchored entry points is followed, loops to a '
              'fixpoint (peeled where stated). Exhaustive over paths and symbolic values within the models of std, actix, chrono, cron, serde '
              'and redis; paths it cannot follow are counted in the evidence and never reported as violations. Not a machine-checked proof.')


def implemented():
    import sys
    sys.path.insert(0, HERE)
    import check
    return set(check.rules())


def main():
    done = implemented()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for (i, title, st, over, text, why, files, mech, tech) in PROPS:
            assert len(title) <= 80, title
            if tech and i not in done:
                continue
            f.write(json.dumps(dict(id=i, title=title, statement=st, quantifier=dict(over=over, text=text), why_tests_cant=why,
                                    anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))) + '\n')
    checks = []
    for p in PROPS:
        if p[8] and p[0] in done:
            checks.append(dict(property=p[0], quick_cmd='python3 check.py %s quick' % p[0],
                               thorough_cmd='python3 check.py %s thorough' % p[0], evidence_file='evidence/%s.json' % p[0],
                               technique='static analysis: ' + p[8], level='other', level_note=LEVEL_NOTE))
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
             notes='All checks share one MIR dump of /repo made by a rustc driver (driver/main.rs) and one abstract interpreter (ajv/). '
                   'No hooks in /repo. known_findings.json lists recorded findings and fixed defects.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
