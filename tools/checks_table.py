"""What each check builds and runs. secs = (quick, thorough)."""
VS_RULE = ("case = generated scenario parameters x one schedule (random walk or PCT, with permitted stale loads, spurious "
           "weak-CAS failures/wakeups and virtual-time jumps); non-trivial = at least two threads and at least one non-default "
           "scheduling decision with two or more context switches; distinct = by hash of the interleaved sequence of atomic/lock events with their values")
SQ_RULE = ("case = generated choice sequence decoded into a program/history; non-trivial = as flagged by the harness "
           "(see level_note), distinct = by the printed case")
VS_ASSUME = ["the schedule fuzzer runs one thread at a time and models the C++ memory model by a sound subset (views over per-location modification order, seq_cst treated as fenced)",
             "libstdc++/glibc code that is not instrumented (thread start, exception_ptr internals) is modelled, not explored"]
CHECKS = {}
def vs(pid, src, quick=36, thorough=600, note="", link=[], flags=[], extra=[], args=[], ndebug=True):
    n = pid.lower()
    parts = [dict(name=n, mode="vsched", src=src, secs=(quick, thorough), link=link, flags=flags, args=args)]
    if ndebug:  # library assertions off: they order memory accesses and hide the consequences of what they check
        parts[0]["secs"] = (quick // 2, thorough // 2)
        parts.append(dict(name=n + "_nd", mode="vsched", src=src, secs=(quick // 2, thorough // 2), link=link, flags=flags + ["-DNDEBUG"], args=args))
    CHECKS[pid] = dict(rule=VS_RULE, assumptions=VS_ASSUME, note=note,
        technique="schedule fuzzing (random walk + PCT) of generated scenarios under a controlled scheduler with a race/lifetime/deadlock oracle",
        parts=parts + extra)

vs("C10", ["harness/c10_stop.cpp"], note="every registered/deregistered/requested history of up to 6 callbacks on 4 threads is sampled with its interleavings")
vs("C05", ["harness/c05_when_all.cpp"], note="2-4 children (inline / on a worker / waiting for stop; value, error, stopped), flat and nested when_all and when_all_with_variant, stop before/during")
vs("C09", ["harness/c09_sync_wait.cpp"], note="1-2 callers, completion inline / on a worker / on the waiting thread's loop after 0-2 hops through its scheduler, every channel and error kind")
vs("C11", ["harness/c11_run_loop.cpp"], note="1-3 producer threads x 0-3 items (child items, stop before/concurrent, operation destroyed in its completion), four ways of calling finish()")
vs("C12", ["harness/c12_pool.cpp"], quick=44, note="1-3 workers, 1-2 client threads, up to 7 tasks (children, pinned, masked, stopped before/concurrently, destroyed in completion), tiny queues; bulk on the pool; schedule_all")
vs("C13", ["harness/c13_bwos.cpp"], note="owner programs of push/range push/pop over 1-4 blocks x 1-3 slots against 1-3 thieves; plus sequential model-based histories")
vs("C20", ["harness/c20_timed.cpp"], note="1-3 client threads, up to 6 timers (past, ms, far; chained; stopped before / concurrently / later; context destroyed early, while stopping, or at the last completion) in virtual time; intrusive heap against a sorted reference")
vs("C14", ["harness/c14_queues.cpp"], quick=24, note="1-3 producers x 1-4 pushes against one consumer (polling, waiting), __intrusive_mpsc_queue, __atomic_intrusive_queue, exec::__atomic_intrusive_queue (try_push/push/prepend)")
vs("C15", ["harness/c15_shared.cpp"], quick=30, note="split with 1-3 observers and ensure_started; observers started, only connected or dropped, stopped before / concurrently, started after completion, operations and stop sources dying in the completion")
vs("C16", ["harness/c16_spawn.cpp"], quick=32, note="1-2 spawned operations (spawn / spawn_future) into simple_counting_scope or counting_scope, closed before / concurrently / stopped, joined afterwards or concurrently; future started (late, stopped before / concurrently), only connected, or dropped")
vs("C17", ["harness/c17_scopes.cpp"], quick=32, note="random programs of associate/copy/release/close/join/request_stop/associated senders on 1-3 threads, waiting children stopped by the scope or their receiver, scope destroyed by the last join")
vs("C18", ["harness/c18_async_scope.cpp"], quick=32, note="1-2 nested / spawned / future operations on 1-3 threads, request_stop before/concurrently, 0-2 concurrent emptiness waiters plus a final one that may destroy the scope; future started (late, stopped), only connected, dropped; receiver stop sources dying in the completion")
vs("C26", ["harness/c26_parallel.cpp", "repo:src/parallel_scheduler/parallel_scheduler.cpp"], quick=36, note="default backend (1-3 workers) and generated backends (inline / worker / error / stopped / waiting for stop, random chunking, scratch storage scribbled): schedule, bulk*, par/seq, shapes 0-8, predecessors on any channel, three kinds of stop token, connect-only, destroyed in completion; concurrent first use and replacement of the backend")

vs("C22", ["harness/c22_uring.cpp"], quick=40, note="1-3 consecutive runs (run_until_stopped / run_until_empty / finish, member functions and run() senders, stopped before, early or at the end) of one context with 1-1024 entries; up to 12 operations (now / at / after, past to one hour; chained; stopped before / concurrently) started before the run, by 1-2 clients, and from completions; emulated kernel with late and reordered completions, partial submission, EINTR, failing enter; promptness in virtual time")
# ---- generated sender trees against a reference interpreter (sequential, ASan/UBSan) ----
TREE_SRC = ["harness/tree/%s.cpp" % b for b in ("b_leaf", "b_let", "b_sched", "b_env", "b_multi", "b_loop", "b_fork", "core", "model", "main")]
TREE_RULE = ("case = a generated tree of 1-25 senders (every standard adaptor, the exec:: ones, type-erased ones; run-time chosen leaf outcomes, channels, contexts, "
             "exceptions thrown by callables, connect, copies and moves, stop requests, destruction inside the completion) run to completion on the real library under "
             "ASan/UBSan/LSan and compared with a reference interpreter event by event; non-trivial = at least three nodes and at least one adaptor besides the root; "
             "distinct = by the printed tree and schedule of external events")
def tree(pid, scen, quick=26, thorough=600, note="", extra=[], variants=("", "ne"), rule_add=""):
    fl = {"": [], "nd": ["-DNDEBUG"], "ne": ["-DTR_NOEXCEPT=noexcept"]}
    parts = []
    for v in variants:
        args = []
        for s in scen: args += ["--only", s]
        parts.append(dict(name="tree" + ("_" + v if v else ""), mode="asan", src=TREE_SRC, flags=["-fno-sanitize=object-size"] + fl[v],
                          secs=(quick // len(variants), thorough // len(variants)), link=[], args=args))
    CHECKS[pid] = dict(rule=TREE_RULE + rule_add, assumptions=["sequential trees: interleavings of several threads are explored by the conc part (C01, C06, C25) and by the checks of C05 and C10-C18",
                       "the reference interpreter in harness/tree/model.cpp states the documented semantics of each algorithm"], note=note,
        technique="grammar-based generation of sender expressions checked against a reference interpreter under ASan/UBSan (differential property-based testing)",
        parts=parts + extra)

def conc(q, args, nd=False):
    r = [dict(name="conc", mode="vsched", src=["harness/conc.cpp"], secs=(q, 15 * q), link=[], flags=[], args=args)]
    if nd: r.append(dict(name="conc_nd", mode="vsched", src=["harness/conc.cpp"], secs=(q, 15 * q), link=[], flags=["-DNDEBUG"], args=args))
    return r
CONC_RULE = "; schedule-fuzzing part: " + VS_RULE
tree("C01", ["once"], variants=("", "nd"), extra=conc(12, [], True), rule_add=CONC_RULE, note="trees over all adaptors and leaf kinds; completions before start, twice, or never (after every external event has been delivered); 22 concurrent pipelines with children on 1-3 threads, stopped before / concurrently, operation and stop sources dying in the completion")
tree("C02", ["standard"], note="standard adaptors; the value/error/stopped result, its payload and every user callable invocation with its arguments")
tree("C03", ["throw", "opthrow"], note="callables, connects and element copies/moves of callables and values throwing at the k-th call; nothrow and throwing moves")
tree("C04", ["lifetime"], note="counted objects with alive/moved-from/dead states, op states destroyed in completions, stop sources dying, connect-only, exceptions injected at the k-th copy/move; ASan + LSan")
tree("C06", ["stop_env"], variants=("", "nd"), extra=conc(14, ["--only", "stop"]) + [dict(name="c06_env", mode="vsched", src=["harness/c06_env.cpp"], secs=(3, 60), link=[], flags=[], args=["--per", "1"])], rule_add=CONC_RULE, note="stop_possible/stop_requested seen by each leaf at start and at delivery, when each leaf's stop callback runs, queries written by write_env at any depth; environments composed with write_env / make_env / env / without and read with read_with_default, attributes of write_attrs, through three layers of adaptors")
tree("C07", ["scheduling"], variants=("", "nd"), note="context id at every callable and completion, get_scheduler/get_start_scheduler seen by each leaf, for schedule/starts_on/continues_on/on/affine/reschedule trees")
tree("C25", ["extension"], extra=conc(16, ["--only", "extension"]) + [dict(name="c25_misc", mode="vsched", src=["harness/c25_misc.cpp"], secs=(9, 120), link=[], flags=[], args=[])], rule_add=CONC_RULE, note="sequence, finally, repeat_n, repeat_until, unless_stop_requested, when_any, fork_join, materialize, dematerialize, into_tuple, variant_sender, reschedule mixed with standard adaptors; start_now, create and execute with children completing on other threads")

# ---- bulk ----
CHECKS["C08"] = dict(rule=SQ_RULE + "; " + VS_RULE, assumptions=VS_ASSUME + ["negative shapes are generated only where the library does not state a precondition (default bulk algorithms)", "TBB runs use real, uncontrolled schedules"],
    technique="property-based testing of generated shapes, policies, schedulers, failures and task orders (model-based visit counts), plus schedule fuzzing on the pools",
    note="bulk/bulk_chunked/bulk_unchunked x 7 shape types x 4 policies x {no scheduler, inline, run_loop, a pool derived from thread_pool_base with generated parallelism and task order, task_scheduler over inline / pool}; even_share over all integral widths; static_thread_pool, derived pool and task_scheduler under controlled schedules; TBB on real threads",
    parts=[dict(name="c08", mode="asan", src=["harness/c08/%s.cpp" % x for x in ("main", "s_i8", "s_u8", "s_int", "s_int_nt", "s_uns", "s_sz", "s_ll")], flags=["-fno-sanitize=object-size"], secs=(10, 200), link=[], args=[]),
           dict(name="c08_pool", mode="vsched", src=["harness/c08_pool.cpp"], secs=(14, 300), link=[], flags=[], args=[]),
           dict(name="c08_tbb", mode="gcc", src=["harness/c08_tbb.cpp"], secs=(6, 100), link=["-ltbb"], flags=[], args=[])])

# ---- containers and type-erased holders ----
C29_SRC=["harness/c29/%s.cpp" % x for x in ("main", "any", "lists", "vals")]
CHECKS["C29"] = dict(rule=SQ_RULE, assumptions=["__intrusive_queue::splice is driven only in the positions the library uses it in (see DESIGN.md)"],
    technique="model-based stateful property testing: generated operation histories on each container against a reference model, with injected throwing copies/moves/allocations, under ASan/UBSan/LSan",
    note="exec any/any_ptr/any_ref, intrusive queue/slist/lifo, __optional, __variant, __tuple, __static_vector, intrusive_ptr, intrusive heap",
    parts=[dict(name="c29", mode="asan", src=C29_SRC, flags=["-fno-sanitize=object-size"], secs=(20, 400), link=[], args=[]),
           dict(name="c29_gcc", mode="gcc", src=C29_SRC, flags=[], secs=(8, 100), link=[], args=[])])

# ---- sequence senders ----
C23_SRC=["harness/c23/%s.cpp" % x for x in ("core", "p_a", "p_b", "p_c", "p_d", "p_e")]
CHECKS["C23"] = dict(rule=SQ_RULE + "; " + VS_RULE, assumptions=VS_ASSUME + ["sources and consumers are test-owned scripts that respect the sequence-sender protocol; limits of the pipelines are listed in DESIGN.md"],
    technique="scripted sources/consumers driven through generated sequence pipelines against a protocol monitor and an outcome oracle, sequentially (ASan) and under schedule fuzzing",
    note="src, transform_each, merge, merge_each, iterate, any_sequence, ignore_all_values and nestings; items inline/deferred/stoppable, every channel, parallel and lock-step sources, consumer breaks, external stop, throwing subscribe/connect/set_next, operation or stop source destroyed in the completion",
    parts=[dict(name="c23", mode="asan", src=C23_SRC, flags=["-fno-sanitize=object-size"], secs=(12, 200), link=[], args=[]),
           dict(name="c23_mt", mode="vsched", src=C23_SRC, flags=["-DC23_MT"], secs=(20, 300), link=[], args=[])])

# ---- coroutines ----
C19_SRC=["harness/c19/%s.cpp" % x for x in ("core", "f_s", "f_e", "f_x")]
CHECKS["C19"] = dict(rule=SQ_RULE + "; " + VS_RULE, assumptions=VS_ASSUME + ["exec::task hops back through continues_on, whose failure to store a value completes on the other context (known finding, scenario exec_throwmove)"],
    technique="generated coroutine programs (frames x statements) executed for real and replayed by a reference interpreter, sequentially over adversarial context queues (ASan) and with one thread per context under schedule fuzzing",
    note="ex::task, ex::task with its own scheduler/error types, exec::task; awaits of senders/awaitables/tasks, stopped_as_optional, upon_stopped, then, starts_on, on, schedule, at_coroutine_exit, dispositions, reschedule_coroutine_on; every way to end; external stop; frames/locals/values accounted",
    parts=[dict(name="c19", mode="asan", src=C19_SRC, flags=["-fno-sanitize=object-size"], secs=(15, 250), link=[], args=[]),
           dict(name="c19_mt", mode="vsched", src=C19_SRC, flags=["-DC19_MT"], secs=(20, 300), link=[], args=[])])

# ---- type-erased senders, receivers, schedulers ----
C24_SRC=["harness/c24/%s.cpp" % x for x in ("core", "senders", "scheds", "bulk")]
CHECKS["C24"] = dict(rule=SQ_RULE + "; " + VS_RULE, assumptions=VS_ASSUME + ["limits of what can be erased or nested are listed in DESIGN.md"],
    technique="differential: generated test-owned senders/schedulers are run through the erased wrappers and every observation (completion, values, env queries, stop requests, schedulers, lifetimes) is compared with the wrapped object's own behaviour",
    note="any_sender with different query lists, variant_sender, exec::function, any_receiver, any_scheduler (two implementations), task_scheduler and its bulk backends; small and over-aligned objects, copies/moves/assignments, nested erasure, foreign stop tokens, throwing connect/copy/allocation, stop before/at/after start, threads",
    parts=[dict(name="c24", mode="asan", src=C24_SRC, flags=["-fno-sanitize=object-size"], secs=(15, 250), link=[], args=[]),
           dict(name="c24_mt", mode="vsched", src=C24_SRC, flags=["-DC24_MT"], secs=(20, 300), link=[], args=[])])

# ---- loops ----
C21_SRC=["harness/c21/%s.cpp" % x for x in ("core", "l0", "l1", "l2", "l3", "l4")]
CHECKS["C21"] = dict(rule=SQ_RULE, assumptions=["loop bodies complete synchronously; bodies an algorithm does not accept at compile time are left out (DESIGN.md)"],
    technique="generated loops (kind x body x count x ending) run for real against the loop's definition with a stack high-water invariant; trampoline schedulers driven with generated item trees against a run-once/order/depth model",
    note="repeat_n, repeat_until, repeat, exec::task and ex::task loops over 17 kinds of bodies incl. nested loops, iterate|transform_each|ignore_all_values, loops of tasks; up to 8000 iterations; every ending incl. stop, errors, throwing connect and throwing predicate; clang with ASan and gcc",
    parts=[dict(name="c21", mode="asan", src=C21_SRC, flags=["-fno-sanitize=object-size", "-fsanitize-address-use-after-return=never"], secs=(15, 200), link=[], args=[]),
           dict(name="c21_gcc", mode="gcc", src=C21_SRC, flags=["-O2"], secs=(10, 150), link=[], args=[])])

# ---- allocators ----
# ---- truthfulness ----
CHECKS["C28"] = dict(rule=SQ_RULE, assumptions=["typed expressions are fixed at compile time (harness/c28/list_*.inc); channels, schedulers, event order, stop requests and exceptions are generated", "expressions with a listed finding are explored apart from the others (scenario listed)"],
    technique="differential: generated executions of typed sender expressions over deterministic contexts (and the library's own schedulers over real threads) against what the expression and every sender inside it advertise: completion signatures, completion schedulers, completion behaviours",
    note="about 1500 expressions (leaf x adaptor [x checking sender] x adaptor x environment), 15 expressions x 9 schedulers with real threads; 7 of 9 leaves complete on different channels in different ways",
    parts=[dict(name="c28", mode="plain", src=["harness/c28/%s.cpp" % x for x in ("core", "real", "p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7")], flags=["-O0"], secs=(20, 300), link=[], args=[])])

C27_SRC=["harness/c27/%s.cpp" % x for x in ("core", "spawn", "task", "function", "erased")]
CHECKS["C27"] = dict(rule=SQ_RULE, assumptions=["operator== of task_schedulers with equal schedulers but different allocators is left open"],
    technique="generated programs run over a checking allocator ledger (exactly aligned blocks with guard bytes, several arenas, failure of the k-th allocation) and probes that report where they live; model-based histories for the erased allocator and the memory-resource adaptor",
    note="spawn, spawn_future, start_detached, split, ensure_started, ex::task trees (free/lambda/member coroutines), exec::function with 5 query lists x 9 environments, task_scheduler, __any_allocator, __memory_resource_adaptor, __frame_allocator, allocator-extended construction in operation states",
    parts=[dict(name="c27", mode="asan", src=C27_SRC, flags=["-fno-sanitize=object-size"], secs=(15, 200), link=[], args=[]),
           dict(name="c27_gcc", mode="gcc", src=C27_SRC, flags=["-O2"], secs=(6, 100), link=[], args=[])])
