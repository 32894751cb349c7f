#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))
S = "include/stdexec/"; D = S + "__detail/"; X = "include/exec/"

p("C01", "A started operation completes exactly once, and only after it is started",
  "Any sender expression is lazy: building and connecting it runs none of its work and signals nothing. Once its operation state is started it calls exactly one completion function of its receiver, exactly once, never before start and never after its receiver or operation state is gone, whatever mix of synchronous, deferred, failing and cancelled children it is built from and whenever stop is requested. An operation state that is connected but never started can be destroyed without effect.",
  ["programs", "histories", "inputs"],
  "all compositions of the library's factories and adaptors over children that complete inline, later, with any of the three channels, and all points at which stop is requested",
  "The tests run fixed pipelines one at a time; the space of nestings times child behaviours times stop instants is unbounded.",
  [D+"__basic_sender.hpp", D+"__operation_states.hpp", D+"__let.hpp", D+"__when_all.hpp", D+"__sequence.hpp", D+"__finally.hpp", X+"when_any.hpp", X+"repeat_until.hpp", X+"repeat_n.hpp"],
  [("operation state / receiver hand-off in every adaptor", D+"__basic_sender.hpp")],
  ["completion calls observed by a counting receiver"])

p("C02", "A pipeline delivers the result its algorithms define",
  "For every composition of the standard factories and adaptors (just, just_error, just_stopped, read_env, then, upon_error, upon_stopped, let_value, let_error, let_stopped, stopped_as_error, stopped_as_optional, into_variant, when_all, when_all_with_variant, starts_on, continues_on, on, write_env, bulk, sync_wait, sync_wait_with_variant), the completion channel, the values or error delivered, and the sequence of user-callable invocations with their arguments are those given by the documented meaning of each algorithm applied bottom-up. The result does not depend on whether the direct-call or the pipe form was used, on whether a composed closure was used, or on whether the sender was connected as a copy or moved.",
  ["programs", "inputs"],
  "all expressions of the standard algorithms, all input values and all child completion channels",
  "Unit tests pin down each adaptor alone on one or two inputs; interactions between adaptors (value category, channel routing, storage of intermediate results) are not enumerated.",
  [D+"__just.hpp", D+"__then.hpp", D+"__upon_error.hpp", D+"__upon_stopped.hpp", D+"__let.hpp", D+"__stopped_as_error.hpp", D+"__stopped_as_optional.hpp", D+"__into_variant.hpp", D+"__when_all.hpp", D+"__sync_wait.hpp", D+"__bulk.hpp", D+"__sender_adaptor_closure.hpp"],
  [("per-algorithm completion rules", D)], ["receiver completion, log of callable invocations"])

p("C03", "An exception thrown by user code becomes an error completion, never a crash",
  "If a user-supplied callable, or the copy or move of a user value or callable, throws while a started operation is running, the operation completes with set_error carrying that same exception (or an error the algorithm documents in its place), exactly once, and never calls std::terminate, never also completes normally and never loses the exception. If the throw happens while a sender is being built or connected, the exception propagates to the caller and nothing was started.",
  ["fault_sequences", "programs"],
  "all user-code call sites reached by a pipeline: the k-th user operation (callable, copy, move) throws, for every k",
  "Tests throw from a callable at one chosen place; they do not throw from the k-th copy or move inside an adaptor for every k.",
  [D+"__then.hpp", D+"__let.hpp", D+"__when_all.hpp", D+"__continues_on.hpp", D+"__bulk.hpp", D+"__spawn_future.hpp", X+"repeat_until.hpp", X+"repeat_n.hpp", X+"when_any.hpp", X+"materialize.hpp", X+"into_tuple.hpp"],
  [("STDEXEC_TRY/CATCH around every user operation and the noexcept computation that decides whether it is needed", D)],
  ["completion channel and exception identity"])

p("C04", "Every object is destroyed exactly once and never used outside its lifetime",
  "Across any run of any pipeline, including runs where user code throws, where stop is requested, where the operation is never started, or where the receiver destroys the operation state from inside its completion function, every value, callable, error, environment and nested operation state the library stores is constructed and destroyed exactly once, none is read after it was destroyed or moved-from by the library, and no memory is leaked. Arguments passed to a let_* callable stay valid until the operation returned by that callable has completed.",
  ["programs", "histories", "fault_sequences"],
  "all compositions, all channels, all fault positions, all moments at which the receiver destroys the operation",
  "Tests check results, not object ledgers; use-after-destroy in a rarely taken branch usually still yields the right value.",
  [D+"__operation_states.hpp", D+"__let.hpp", D+"__when_all.hpp", D+"__variant.hpp", D+"__tuple.hpp", D+"__manual_lifetime.hpp", D+"__sequence.hpp", X+"repeat_until.hpp", X+"repeat_n.hpp", X+"fork_join.hpp", X+"variant_sender.hpp"],
  [("manual lifetime storage", D+"__manual_lifetime.hpp")], ["object ledger, AddressSanitizer/UBSan"])

p("C05", "when_all completes once, after all children; a failure stops the others",
  "when_all and when_all_with_variant complete exactly once and only after every child has completed, for every interleaving of children finishing on different threads and of an outer stop request. If all children succeed the value completion is the in-order concatenation of the children's values; if any child fails the completion is the error of one of the failing children - the first to be reported; otherwise, if any child was stopped, or stop was requested while children that can be stopped were running, it is set_stopped. The first failure, the first stop, or a stop request from the receiver makes every child's stop token report a stop request.",
  ["schedules", "histories", "inputs"],
  "all interleavings of n children completing on m threads with all channel combinations, with and without a concurrent outer stop request",
  "The tests complete children from one thread in a fixed order; the races between last-arrival, first-failure and stop are scheduling dependent.",
  [D+"__when_all.hpp", D+"__into_variant.hpp", S+"stop_token.hpp"],
  [("arrival counter and disposition exchange", D+"__when_all.hpp")],
  ["receiver completion under a controlled scheduler"])

p("C06", "Stop requests and environment queries reach every child through every adaptor",
  "A stop request made through the receiver's stop token before or during an operation becomes visible to every running child connected beneath it, through any nesting of adaptors that do not document replacing the token, and a child that honours it by completing with set_stopped makes the whole operation complete accordingly. Every forwarding query answered by the receiver's environment is answered with the same value inside every child, except where write_env or another adaptor documents overriding it, and an overriding environment shadows only the queries it defines and only beneath it.",
  ["programs", "histories"],
  "all nestings of adaptors, all queries, and all moments of the stop request",
  "Tests check forwarding for single adaptors with one query; deep nestings and late stop requests are not covered.",
  [D+"__env.hpp", D+"__write_env.hpp", D+"__read_env.hpp", D+"__stop_when.hpp", D+"__when_all.hpp", D+"__let.hpp", D+"__starts_on.hpp", D+"__on.hpp", D+"__unstoppable.hpp", X+"env.hpp"],
  [("receiver environment forwarding", D+"__env.hpp")], ["queries evaluated by probe senders at the leaves"])

p("C07", "Work and completions happen on the execution context the algorithms promise",
  "schedule(s) completes on s; starts_on(s, w) starts w on s; continues_on(w, s) delivers every completion of w - value, error or stopped - on s with its data unchanged; on(s, w) runs w on s and, for every channel, returns to the scheduler the operation was started on; on(w, s, closure) runs the closure on s and returns to where w completed. These hold for every nesting of these adaptors with each other and with the remaining adaptors, and get_start_scheduler read inside w reports the scheduler w was started on.",
  ["programs", "histories"],
  "all nestings of scheduling adaptors over several distinguishable contexts and all completion channels",
  "Tests use one or two contexts in fixed combinations; wrong-context bugs show only in particular nestings and channels.",
  [D+"__starts_on.hpp", D+"__continues_on.hpp", D+"__schedule_from.hpp", D+"__on.hpp", D+"__schedulers.hpp", D+"__affine.hpp", X+"reschedule.hpp"],
  [("scheduler recorded in the environment and scheduling tail operation", D+"__continues_on.hpp")],
  ["id of the manually driven context that executes each user callable"])

p("C08", "bulk visits every index of the shape exactly once on every scheduler",
  "bulk, bulk_chunked and bulk_unchunked call the function so that every index in [0, shape) is covered exactly once and nothing outside it is ever passed, chunks being in-range and disjoint; unchunked calls take exactly one index each. Under a sequenced policy the calls never run concurrently. The predecessor's values are passed to every call and then forwarded unchanged; all calls happen before the completion and are visible to it; an exception from any call yields exactly one set_error with one of the thrown exceptions (except on the parallel scheduler, where the function must not throw); error and stopped predecessors skip all calls. This holds for every shape including 0 and shapes near, below and far above the number of workers, for every policy, and on inline, static thread pool, parallel and TBB schedulers.",
  ["inputs", "schedules", "configurations"],
  "all shapes, integral shape types, policies, thread counts, schedulers and interleavings",
  "Tests run a handful of shapes; off-by-one errors in the partitioning depend on shape modulo thread count and on stealing order.",
  [D+"__bulk.hpp", X+"static_thread_pool.hpp", D+"__parallel_scheduler.hpp", D+"__parallel_scheduler_backend.hpp", D+"__parallel_scheduler_default_impl.hpp", D+"__task_scheduler.hpp", X+"thread_pool_base.hpp"],
  [("even_share partitioning and domain-specific bulk lowering", X+"static_thread_pool.hpp")],
  ["per-index visit counters"])

p("C09", "sync_wait blocks until completion and returns exactly what was delivered",
  "sync_wait returns only after the operation has completed, whichever thread completes it, and never misses the wake-up: the result is an engaged optional with the values on set_value, an empty optional on set_stopped, and on set_error the original exception is rethrown (exception_ptr), wrapped in std::system_error (error_code) or thrown as is (anything else). While it waits it runs, on the calling thread, all work scheduled through the scheduler its environment provides, and after it returns nothing touches its stack frame any more.",
  ["schedules", "inputs", "programs"],
  "all interleavings between the waiting thread and the completing threads, all channels and all value and error types",
  "Tests mostly complete inline; the window between completion, loop finish and return is a race.",
  [D+"__sync_wait.hpp", D+"__run_loop.hpp", D+"__atomic_intrusive_queue.hpp"],
  [("run_loop finish() handshake", D+"__run_loop.hpp")], ["return value under a controlled scheduler with use-after-scope detection"])

p("C10", "Stop callbacks run at most once, never after deregistration, and never get lost",
  "For every interleaving of registering, deregistering and requesting stop on one in-place stop source: exactly one request_stop returns true; a callback registered before or during the stop request and not deregistered is invoked exactly once, inline if stop was already requested; a callback is never invoked after its destructor returned, and a destructor running concurrently with the invocation on another thread waits for it to finish, while one running inside its own callback does not deadlock. After request_stop, every token reports stop_requested, permanently, and everything written before the request is visible to the callbacks.",
  ["schedules", "histories"],
  "all interleavings of any number of registrations, deregistrations and stop requests, including reentrant ones from inside callbacks",
  "The repository's tests are single threaded; the guarantee is about races.",
  [S+"stop_token.hpp", D+"__stop_token.hpp"],
  [("spin-locked callback list with completion flag", S+"stop_token.hpp")], ["callback invocation log under a controlled scheduler"])

p("C11", "run_loop runs every scheduled item once; run() ends after finish() and only then",
  "Every operation scheduled on a run_loop before finish() takes effect completes exactly once on a thread that is executing run(), in the order in which it was scheduled, with set_stopped instead of set_value exactly when its stop token has been triggered. run() never returns before finish() was called, always returns after it once the queue is drained, whatever the interleaving of schedulers and finish(), and once it has returned the loop can be destroyed safely.",
  ["schedules", "histories"],
  "all interleavings of producers, finish() and the running thread, including items scheduled from inside running items",
  "One regression program samples a few thousand OS schedules; lost-wake-up and early-destruction windows need specific interleavings.",
  [D+"__run_loop.hpp", D+"__atomic_intrusive_queue.hpp", D+"__intrusive_queue.hpp", X+"single_thread_context.hpp"],
  [("atomic queue with wait/notify and task count", D+"__run_loop.hpp")], ["execution log under a controlled scheduler"])

p("C12", "static_thread_pool runs every scheduled task exactly once on one of its threads",
  "Every operation started on a static_thread_pool scheduler - from outside, from a pool thread, pinned to a given thread, or in bulk - is executed exactly once on a pool thread (the given one when pinned), no matter how workers steal, sleep and wake, and none is left behind while workers sleep; an operation whose stop token is already triggered completes with set_stopped instead. Stopping or destroying the pool after its work has completed always joins all workers without deadlock.",
  ["schedules", "histories", "configurations"],
  "all interleavings of remote submitters, local submitters, stealing, sleeping and shutdown for all thread counts",
  "Tests submit from one thread on an idle pool; lost wake-ups and lost or duplicated tasks need specific interleavings of the sleep protocol.",
  [X+"static_thread_pool.hpp", X+"detail/bwos_lifo_queue.hpp", X+"detail/atomic_intrusive_queue.hpp", D+"__intrusive_queue.hpp", X+"detail/xorshift.hpp"],
  [("sleep/notify protocol and remote queue lists", X+"static_thread_pool.hpp")], ["execution log under a controlled scheduler"])

p("C13", "The work-stealing queue never loses, duplicates or invents an element",
  "For one owner pushing (singly or in ranges) and popping and any number of concurrent thieves, for every block size, block count and interleaving, each element accepted by the block-based work-stealing queue is obtained exactly once by either the owner or a thief, elements that a range push did not accept are reported back as not accepted, and when the queue is quiescent the owner can retrieve every remaining element. Data written before a push is visible to whoever obtains the element.",
  ["schedules", "histories", "configurations"],
  "all operation sequences of owner and thieves, all interleavings, all block geometries",
  "The Relacy tests sample fixed small programs (and are not built here); wrap-around of blocks combined with concurrent steals is a narrow window.",
  [X+"detail/bwos_lifo_queue.hpp"], [("block ownership hand-over (grant/reclaim/take-over/advance)", X+"detail/bwos_lifo_queue.hpp")],
  ["multiset of obtained elements against a model"])

p("C14", "Lock-free intrusive queues deliver each pushed node exactly once, in order",
  "For any number of concurrent producers and one consumer, each node pushed to a lock-free intrusive queue of the library is returned exactly once, nodes of one producer come out in the order they were pushed (or the documented reverse), an empty result is only reported when every push that completed before the pop has been returned or another push is still in progress, waiting for an item never misses one, and data written before the push is visible after the pop.",
  ["schedules", "histories"],
  "all interleavings of producers and consumer over all push/pop sequences",
  "Relacy tests for one of the queues exist but are not built here and cover fixed programs.",
  [D+"__intrusive_mpsc_queue.hpp", D+"__atomic_intrusive_queue.hpp", X+"detail/atomic_intrusive_queue.hpp"],
  [("exchange/CAS based linking and the stub node", D+"__intrusive_mpsc_queue.hpp")], ["popped sequence against a model"])

p("C15", "split and ensure_started run the work once; all observers get its result",
  "The sender wrapped by split is started at most once, when the first copy is started, and that wrapped by ensure_started exactly once, immediately; every observer started before, during or after completion completes exactly once with the same channel and (a view of) the same data. Cancelling one split observer affects only that observer; discarding the ensure_started handle, or cancelling it, requests stop of the work; the shared state is freed exactly once, after the last user.",
  ["schedules", "histories"],
  "all interleavings of observers being started, stopped and dropped with the work completing",
  "Tests exercise fixed orders; late subscription racing with completion and last-reference release are interleaving dependent.",
  [X+"detail/shared.hpp", X+"split.hpp", X+"ensure_started.hpp", D+"__intrusive_ptr.hpp"],
  [("waiter list with tombstone and intrusive reference count", X+"detail/shared.hpp")], ["observer completions under a controlled scheduler"])

p("C16", "spawn and spawn_future start eagerly, deliver once and never leak",
  "spawn and spawn_future start the work immediately if and only if the scope admits it, keep the scope's association until the work's state is destroyed, and allocate and free that state exactly once through the chosen allocator. The sender returned by spawn_future completes exactly once with the work's own completion (or set_stopped if the scope was closed), no matter whether the work finishes before, during or after the future is started; dropping the future without starting it, or a stop request on its receiver, requests stop of the work, and the work still runs to its end before the scope can join.",
  ["schedules", "histories"],
  "all interleavings of work completing, future being started, stopped or abandoned, and scope closing and joining",
  "Tests use one thread in fixed orders; the state machine between producer and consumer is a race.",
  [D+"__spawn.hpp", D+"__spawn_future.hpp", D+"__spawn_common.hpp", D+"__associate.hpp", D+"__stop_when.hpp"],
  [("spawn_future shared-state state machine", D+"__spawn_future.hpp")], ["future completion, allocator ledger, scope join"])

p("C17", "A counting scope joins exactly when its last association ends, and stays closed",
  "For simple_counting_scope and counting_scope, under every interleaving of associations beginning and ending, close, request_stop and join: an association succeeds if and only if the scope has not been closed or joined; each join operation completes exactly once, never while any association is alive and always once the last one has ended; after close no association succeeds. Senders wrapped by a counting_scope's token see a stop request once request_stop was called, and associate yields set_stopped without running the work when the association was refused.",
  ["schedules", "histories"],
  "all histories of associate/disassociate/close/join/request_stop over several threads",
  "Single-threaded state-transition tests only; last-disassociate racing with join and close is not covered.",
  [D+"__counting_scopes.hpp", D+"__scope_concepts.hpp", D+"__associate.hpp", D+"__spawn_common.hpp"],
  [("packed count/state word and join list", D+"__counting_scopes.hpp")], ["history checked against a reference state machine"])

p("C18", "async_scope tracks every nested operation and signals emptiness exactly then",
  "For exec::async_scope, under every interleaving: operations nested or spawned run to completion exactly once with their result passed on unchanged (nest, spawn_future) or dropped (spawn); on_empty and when_empty complete exactly once, only when no nested operation is outstanding, and always once that is the case; request_stop reaches all nested operations; a spawned future delivers its result exactly once whether it is started before, during or after completion and can be dropped at any time without leak.",
  ["schedules", "histories"],
  "all histories of nest/spawn/spawn_future/on_empty/request_stop over several threads",
  "A few fixed Relacy programs exist but are not built here; the rest of the tests are single threaded.",
  [X+"async_scope.hpp"], [("active counter, waiter queue and future state machine", X+"async_scope.hpp")], ["history under a controlled scheduler"])

p("C19", "Coroutine tasks complete once, stay on their scheduler, free frames once",
  "A task connected and started as a sender, or awaited by another coroutine, completes exactly once with the value returned, the exception thrown, or stopped if an awaited sender was stopped; awaiting a sender yields exactly its value, throws its error, or unwinds as stopped. After each await of a sender completing on another context the coroutine resumes on its own scheduler. For every nesting, each coroutine frame is destroyed exactly once, local variables and registered exit actions are run exactly once in reverse order, also when a stopped completion or an exception crosses several frames, and a stop request on the outer receiver is visible in the task.",
  ["programs", "histories", "schedules"],
  "all coroutine programs built from awaits of values, errors, stopped, nested tasks, scheduler changes and exit actions",
  "Tests contain fixed coroutines; the combinations of unwinding mode, nesting and suspension are not enumerated.",
  [D+"__task.hpp", X+"task.hpp", D+"__as_awaitable.hpp", D+"__connect_awaitable.hpp", S+"coroutine.hpp", D+"__affine.hpp", X+"at_coroutine_exit.hpp", X+"on_coro_disposition.hpp", D+"__with_awaitable_senders.hpp"],
  [("promise types, continuation handles and affine wrapping", D+"__task.hpp")], ["log of a generated coroutine program against an interpreter"])

p("C20", "Timers never fire early, fire in deadline order, and cancel exactly once",
  "On timed_thread_scheduler every schedule_at/schedule_after operation completes exactly once: with set_value not earlier than its deadline and in deadline order with respect to other timers that are due, or with set_stopped, promptly, if stop is requested first - never both and never neither - for every interleaving of starting, expiring, cancelling and shutting down. The intrusive heap underneath always yields a minimum element, and inserting or erasing any element keeps all others.",
  ["schedules", "histories", "inputs"],
  "all histories of timers started, cancelled and expiring, all deadline multisets, all interleavings",
  "Tests wait for real time on a few timers; cancel-versus-expire races and heap shapes are not explored.",
  [X+"timed_thread_scheduler.hpp", X+"timed_scheduler.hpp", X+"detail/intrusive_heap.hpp"],
  [("command queue plus pairing heap of deadlines", X+"timed_thread_scheduler.hpp")], ["completion time in virtual time, model heap"])

p("C21", "Loops over synchronously completing work use bounded stack",
  "The stack used by repeat_until, repeat_n, the trampoline scheduler and a coroutine loop awaiting senders does not grow with the number of iterations when every iteration completes synchronously, and each iteration's work and each recursively scheduled item is executed exactly once, with the iterations in order and the loop ending exactly when its predicate or count says so, or at the first error or stop.",
  ["inputs", "programs"],
  "all iteration counts, recursion depths and iteration bodies",
  "Tests run a few fixed small counts; stack growth shows only for large counts or particular bodies.",
  [X+"repeat_until.hpp", X+"repeat_n.hpp", X+"trampoline_scheduler.hpp", S+"coroutine.hpp", D+"__as_awaitable.hpp", X+"sequence/iterate.hpp"],
  [("trampolining of synchronous completions", X+"trampoline_scheduler.hpp")], ["stack-pointer high-water mark, iteration log"])

p("C22", "io_uring context runs, times and cancels every operation exactly once",
  "Every schedule, schedule_at and schedule_after operation started on an io_uring context - from its own thread or any other - completes exactly once: with set_value, on the thread that drives the context and not before its deadline, or promptly with set_stopped if stop was requested on its token or the context was stopped first (on the driving thread, or at once on the starting thread when the context has already stopped). run_until_empty returns only when no submitted operation is outstanding, run_until_stopped only after a stop request, the context can be restarted after it stopped, and nothing is lost however many operations are submitted relative to the ring size.",
  ["schedules", "histories", "inputs"],
  "all numbers of operations relative to ring size, all mixes of timers and cancellations and submitting threads",
  "Tests submit a handful of operations; ring overflow, pending queues and cancel races are not reached.",
  [X+"linux/io_uring_context.hpp", X+"linux/memory_mapped_region.hpp", X+"linux/safe_file_descriptor.hpp"],
  [("submission/completion queue handling and pending queue", X+"linux/io_uring_context.hpp")], ["operation log over an emulated kernel interface (rings, eventfd, timeouts, cancellation)"])

p("C23", "Sequence senders deliver every item once, in order, then complete once",
  "iterate, empty_sequence, merge, merge_each, transform_each, ignore_all_values and any_sequence deliver each item of their sources exactly once with its value (transformed where specified), keep the order of items within one source, and complete exactly once, after every item operation has completed, with set_value, or with the error or stop that ended the sequence; when an item is stopped or fails, or stop is requested, no further items are produced and running sources are asked to stop. This holds for every nesting and every interleaving of items finishing on different threads.",
  ["programs", "histories", "schedules", "inputs"],
  "all compositions of sequence adaptors, all item counts, all item behaviours and completion orders",
  "Tests use two or three items in fixed orders.",
  [X+"sequence_senders.hpp", X+"sequence/iterate.hpp", X+"sequence/empty_sequence.hpp", X+"sequence/merge.hpp", X+"sequence/merge_each.hpp", X+"sequence/transform_each.hpp", X+"sequence/ignore_all_values.hpp", X+"sequence/any_sequence_of.hpp"],
  [("item receiver / set_next protocol and error storage", X+"sequence_senders.hpp")], ["item log against a list model"])

p("C24", "Type erasure is transparent",
  "A sender, scheduler, receiver or sequence wrapped in any_sender, any_scheduler, any_receiver, task_scheduler, exec::function or variant_sender completes with the same channel, data, stop behaviour, environment answers and execution context as the object it wraps, for small and large, copyable and move-only wrapped objects. Copying, moving, assigning, swapping and destroying wrappers in any order keeps each wrapped object alive exactly as long as its owner and preserves the equality of schedulers.",
  ["programs", "histories", "inputs"],
  "all wrapped senders and schedulers on either side of the small-buffer limit, all sequences of copy/move/assign/reset, all completions",
  "Tests wrap a few senders once; buffer-size boundaries combined with assignment histories are not explored.",
  [X+"any_sender_of.hpp", D+"__any.hpp", D+"__any_allocator.hpp", D+"__task_scheduler.hpp", X+"function.hpp", X+"variant_sender.hpp", D+"__receiver_ref.hpp", D+"__sender_ref.hpp"],
  [("vtable dispatch and small-buffer storage", D+"__any.hpp")], ["differential against the unwrapped object"])

p("C25", "Extension algorithms deliver the result they define",
  "For every composition of the extension algorithms - when_any, fork_join, finally, sequence, materialize/dematerialize, into_tuple, repeat_n, repeat_until, unless_stop_requested, variant_sender, just_from, create, start_now, reschedule, execute, at_coroutine_exit - the delivered channel and data and the set and order of user-code invocations are those of the algorithm's definition: when_any delivers exactly the first child's result, stops the others and waits for them; fork_join feeds one result to all branches and concatenates; finally runs its cleanup exactly once on every channel and then delivers the original result unless the cleanup fails; materialize followed by dematerialize is the identity on all channels; unless_stop_requested runs its child only if stop was not requested before the start.",
  ["programs", "inputs", "histories", "schedules"],
  "all compositions, all channels, all completion orders of children",
  "Per-algorithm example tests only.",
  [X+"when_any.hpp", X+"fork_join.hpp", D+"__finally.hpp", D+"__sequence.hpp", X+"materialize.hpp", X+"into_tuple.hpp", X+"repeat_n.hpp", X+"repeat_until.hpp", X+"unless_stop_requested.hpp", X+"just_from.hpp", X+"create.hpp", X+"start_now.hpp", X+"reschedule.hpp", X+"execute.hpp"],
  [("per-algorithm completion rules", X)], ["receiver completion, log of callable invocations"])

p("C26", "The parallel scheduler runs each item exactly once through any backend",
  "Through get_parallel_scheduler, with the default or a user-replaced backend, every scheduled operation completes exactly once - set_value on a backend worker, set_stopped if its stop token is triggered before it runs - bulk operations cover their range exactly once, and an error reported by the backend becomes set_error. Schedulers obtained from it compare equal if and only if they share a backend, they keep their backend alive, and concurrent submission from many threads loses nothing.",
  ["schedules", "histories", "configurations"],
  "all backend behaviours permitted by the replacement interface, all stop instants, all interleavings",
  "Tests use the default backend and one replacement; adversarial backends and races with stop are not covered.",
  [D+"__parallel_scheduler.hpp", D+"__parallel_scheduler_backend.hpp", D+"__parallel_scheduler_default_impl.hpp", D+"__parallel_scheduler_replacement_api.hpp", "src/parallel_scheduler/parallel_scheduler.cpp", X+"system_context.hpp"],
  [("type-erased receiver proxy and preallocated storage hand-off", D+"__parallel_scheduler.hpp")], ["operation log with a generated backend"])

p("C27", "User allocators are honoured and every allocation is returned to them",
  "Whenever the library allocates on behalf of an operation for which a user supplied an allocator or memory resource - through the environment or as an argument - it uses that allocator, requests at least the size and alignment of the object placed there, and returns each block exactly once, to an equal allocator, with the same size, after the object in it was destroyed. If an allocation fails, the failure is reported to the caller or through set_error and nothing is leaked or started.",
  ["fault_sequences", "programs", "configurations"],
  "all library facilities that allocate, all allocator types, failure of the k-th allocation",
  "Tests count allocations for a few facilities; failing allocators and size/alignment/equality checks are missing.",
  [D+"__any_allocator.hpp", D+"__spawn.hpp", D+"__spawn_future.hpp", X+"start_detached.hpp", D+"__task.hpp", D+"__task_scheduler.hpp", X+"__frame_allocator.hpp", X+"__memory_resource_adaptor.hpp", X+"get_frame_allocator.hpp", X+"function.hpp", X+"detail/shared.hpp", X+"any_sender_of.hpp", D+"__memory.hpp"],
  [("allocator retrieval and rebind at each allocation site", D+"__spawn_common.hpp")], ["checking allocator ledger"])

p("C28", "Advertised completion signatures, schedulers and behaviours are truthful",
  "Every completion an operation actually makes is one of the signatures its sender advertises for that receiver environment, and a sender that does not advertise a stopped or exception completion never makes one. If a sender advertises a completion scheduler for a channel, its completions on that channel happen on that scheduler; if it advertises that it completes inline, it completes before start returns on the same thread, and if it advertises asynchronous completion it does not complete on the starting thread's stack before start returns.",
  ["programs", "inputs"],
  "all compositions of algorithms, environments and schedulers",
  "Tests static_assert the signatures of small examples; agreement between advertised and actual behaviour over compositions is not checked.",
  [D+"__completion_signatures.hpp", D+"__get_completion_signatures.hpp", D+"__transform_completion_signatures.hpp", D+"__completion_behavior.hpp", X+"completion_behavior.hpp", D+"__schedulers.hpp", D+"__domain.hpp", D+"__run_loop.hpp"],
  [("signature transformation per algorithm; attribute forwarding", D+"__transform_completion_signatures.hpp")], ["actual completion versus advertised metadata in generated programs"])

p("C29", "The library's containers behave like their reference models",
  "The queues, lists, heaps, vectors, tuples, variants, optionals, intrusive pointers and type-erasing value holders the library builds on behave, for every sequence of operations, like the obvious reference container: no element is lost, duplicated or reordered, sizes and emptiness agree, iteration visits exactly the contents, moved-from and swapped containers are valid, and each stored object is destroyed exactly once, including when a constructor throws.",
  ["histories", "inputs", "fault_sequences"],
  "all operation sequences over each container",
  "Tests run short fixed sequences for some of them and none for others.",
  [D+"__intrusive_queue.hpp", D+"__intrusive_slist.hpp", D+"__static_vector.hpp", D+"__variant.hpp", D+"__tuple.hpp", D+"__optional.hpp", D+"__intrusive_ptr.hpp", D+"__any.hpp", D+"__manual_lifetime.hpp", X+"detail/intrusive_heap.hpp"],
  [("container implementations", D)], ["model-based comparison after every operation"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import jsonschema
for x in P:
    if len(x["title"])>80: print("TITLE", x["id"], len(x["title"]))
sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x, sch)
print(len(P), "properties")
