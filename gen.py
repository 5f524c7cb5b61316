#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and props.py (which runs exist)."""
import json, os
from props import PROPS

HERE = os.path.dirname(os.path.abspath(__file__))
CC = "include/stlab/concurrency/"
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note))


SEQ = "model-based random programs, executed step by step on harness-owned executors under ASan+UBSan, with shrinking"
DET = "random programs under a controlled-concurrency scheduler (random walk + PCT schedules, virtual time, exact deadlock detection, happens-before race detection), with shrinking of program and schedule"

# ------------------------------------------------------------------ futures
p("F01", "A future graph evaluates to the composition of its functions",
  "A continuation attached with then (or |) receives the value of the future it is attached to and yields its return value; when the antecedent holds an exception the function is skipped and the same exception is passed on, while recover (or ^) receives the ready antecedent and can replace either. An exception thrown by any function becomes the state of its future, and nothing else does. This holds for copyable, move-only and void results, for attachments made before or after completion, and for every execution order of the queued tasks.",
  ["programs", "histories"], "every graph of async/package/then/recover steps with every pattern of throwing steps and every order of running the queued tasks",
  "Unit tests fix a few chains of two or three steps on the pool; the composition law is over all graphs, attachment times and task orders.",
  [CC + "future.hpp"], [("continuation storage and dispatch", CC + "future.hpp: shared_base::recover, value_::proceed, shared_base::_set_exception"), ("then as a wrapper over recover", CC + "future.hpp: future::then")],
  SEQ + "; oracle: independent evaluator of the same graph", "bounded program length; single-threaded interleaving of queued tasks here, threads in F11")
p("F02", "A continuation runs exactly once, when its input is ready, on its executor",
  "Each function passed to async, then, recover, when_all or when_any is submitted exactly once, to the executor named for it or, when none is named, the executor of the future it is attached to. It is submitted only after everything it depends on is ready, and invoked at most once. is_ready, get_try and exception agree with whether and how it has completed at every moment.",
  ["programs", "histories"], "every graph, every assignment of executors to steps and every order in which executors run what they were given",
  "Tests count executor use for a handful of fixed graphs; submission count and placement must hold for all of them.",
  [CC + "future.hpp", CC + "executor_base.hpp"], [("executor inheritance", CC + "future.hpp: shared_base::recover(future&&, F&&)"), ("executor & function pairs", CC + "executor_base.hpp: operator&")],
  SEQ + "; oracle: per-executor submission log predicted by the model", "bounded program length")
p("F03", "A promise that can no longer be kept breaks the future instead of hanging it",
  "When a packaged task is destroyed, overwritten or reset without having been invoked, or an executor discards a task it was given, the matching future becomes ready with future_error broken_promise. Everything that depends on it is completed by the ordinary exception rules. A packaged task that was invoked or given an exception does not change its future again when it is destroyed.",
  ["programs", "fault_sequences"], "every placement of dropped tasks and dropped promises in a future graph",
  "Tests cover one dropped packaged_task; loss can happen at any node of any graph and by any operation that ends a promise's life.",
  [CC + "future.hpp"], [("broken promise on destruction", CC + "future.hpp: packaged_task::~packaged_task, promise::~promise")],
  SEQ + " with injected task loss", "bounded program length")
p("F04", "Dropping the last future cancels work that has not started",
  "When no future refers to a result any more (directly, through an attached continuation that is itself still wanted, or through detach), its function is not invoked if it has not started, and everything the function captured is destroyed. The packaged task then reports canceled, and invoking it has no effect; while a future still refers to the result it reports not canceled. Cancelling one branch never affects a sibling continuation on the same future.",
  ["programs", "histories"], "every graph and every point at which futures are dropped, reset or overwritten",
  "Tests cancel one task in two fixed layouts; the rule is about reachability in arbitrary graphs.",
  [CC + "future.hpp"], [("weak promise side, owning future side", CC + "future.hpp: packaged_task::_p, shared_base")],
  SEQ + "; oracle: reachability in the model graph plus destruction counters on every captured object", "bounded program length")
p("F05", "Detached work completes although nobody holds its future",
  "After detach() the function still runs when its executor runs it, together with every continuation it depends on. A function given to detach(f) is called exactly once, with the ready future, whether the result is a value, an exception or a broken promise. All of its resources are released once it has completed.",
  ["programs", "histories"], "every graph with detached nodes and every order of detaching, completing and dropping",
  "Tests detach one future of one type; detach interacts with continuation attachment, completion order and cancellation.",
  [CC + "future.hpp"], [("self-owning continuation", CC + "future.hpp: shared_base::_detach")],
  SEQ, "bounded program length")
p("F06", "A function that returns a future is flattened into its result",
  "When a function passed to package, async, then or recover returns a future<T>, the outer result is a future<T> that becomes ready exactly when the inner one does, with the same value or exception. It does not become ready before. Dropping the outer future cancels the inner work that has not started.",
  ["programs", "histories"], "every nesting of future-returning functions, with inner futures that are ready, pending, failed, broken or shared",
  "Tests flatten a few fixed nestings; completion order of inner and outer, cancellation and failure combine freely.",
  [CC + "future.hpp"], [("reduction", CC + "future.hpp: package() for future results")],
  SEQ, "nesting depth up to 3")
p("F07", "when_all delivers all values in order, or the first error once",
  "when_all invokes its function exactly once, after every input is ready with a value, with the values in argument (or range) order regardless of completion order, omitting void inputs; an empty range invokes it with no values. If any input fails, the function is not invoked and the result carries the exception of the first input to fail. Releasing the result future releases the inputs.",
  ["programs", "histories"], "every mix of ready, pending, failing, broken, void and move-only inputs and every completion order, including interleaved attachment",
  "Tests complete two to four inputs in fixed orders.",
  [CC + "future.hpp", CC + "tuple_algorithm.hpp"], [("tuple form", CC + "future.hpp: when_all_shared"), ("range form", CC + "future.hpp: common_context, single_trigger, all_trigger")],
  SEQ, "up to 5 inputs")
p("F08", "when_any delivers the first success once, or an error when all fail",
  "when_any invokes its function exactly once, with the value and index of the first input to succeed; later completions are ignored. Failed inputs are skipped as long as one can still succeed; when every input has failed the function is not invoked and the result carries the exception of the last one to fail. An empty range gives a broken promise.",
  ["programs", "histories"], "every mix of ready, pending, failing and broken inputs and every completion order",
  "Tests complete two to four inputs in fixed orders.",
  [CC + "future.hpp"], [("tuple form", CC + "future.hpp: when_any_shared"), ("range form", CC + "future.hpp: common_context")],
  SEQ, "up to 5 inputs")
p("F09", "Futures move sole-owned values and never disturb shared ones",
  "A move-only value is never copied and reaches exactly one consumer; a copyable value observed through one copy of a future is unchanged for every other copy and continuation. get_ready and get_try on an rvalue future may move only when that future is the sole owner. Every value and captured function object is destroyed exactly once, with nothing alive when all handles are gone.",
  ["programs", "histories"], "every sharing pattern of futures, continuations and accessors over copyable, move-only and immovable-after-throw values",
  "Tests check one or two copies of a future; the number of owners at each access depends on the whole history.",
  [CC + "future.hpp"], [("unique_usage", CC + "future.hpp: get_ready_r, get_try_r")],
  SEQ + "; oracle: instance-counting values that poison themselves when moved from", "bounded program length")
p("F10", "await and await_for return the future's result under every schedule",
  "await returns the value of its future, or throws its exception, under every interleaving with the thread completing it, and always returns once the future is completed. await_for returns the ready future if it completes within the timeout, and otherwise a future that later becomes ready with the same result; no value or exception is lost in between. The deprecated blocking_get forms behave the same way.",
  ["schedules", "inputs"], "every interleaving of the waiting thread, the completing thread and the timeout",
  "Tests race one waiter against sleeping threads; lost wakeups and timeout races need particular interleavings.",
  [CC + "await.hpp"], [("await", CC + "await.hpp: await"), ("timed wait hand-over", CC + "await.hpp: blocking_get_guarded")],
  DET, "schedules sampled, not exhausted")
p("F11", "Concurrent attach, complete, copy and drop never lose or repeat a result",
  "When threads concurrently attach continuations to, copy, query, drop and complete the same or related futures, each continuation still runs exactly once with the right value or exception unless it was cancelled by dropping its own result. No interleaving loses a completion, runs a continuation twice, deadlocks, or touches freed memory.",
  ["schedules", "programs"], "every small program over 2 to 4 threads and every interleaving of its synchronization operations",
  "Tests run on an unsteered pool, so the window between completion and attachment is almost never hit.",
  [CC + "future.hpp"], [("ready flag and continuation list under one lock", CC + "future.hpp: shared_base::_mutex/_ready/_then")],
  DET, "schedules sampled, not exhausted")
p("F12", "Coroutines returning futures resume once with the awaited result",
  "A coroutine returning future<T> makes its future ready with the value it returns or the exception it lets escape. co_await on a future yields the value or throws the exception of that future, whether it was ready before or completes later, and continues the coroutine exactly once. Locals of the coroutine are destroyed exactly once.",
  ["programs", "histories"], "every tree of coroutines over ready, pending, failing and broken futures and every completion order",
  "Tests cover two ready/pending cases.",
  [CC + "future.hpp"], [("promise types and awaiter", CC + "future.hpp: coroutine_traits, operator co_await")],
  SEQ, "bounded coroutine depth")
# ------------------------------------------------------------------ channels
p("C01", "A channel pipeline delivers every value once and in order",
  "Every value sent while the receiving end exists passes through each attached process in the order it was sent, exactly once, starting when the receiver is set ready; values sent before that are buffered. Chains of functions and of await/yield processes compute the composition of their stages. This holds whatever the task order of the executors involved and whatever the buffer sizes.",
  ["programs", "histories"], "every pipeline shape, every interleaving of sends, set_ready and executor steps, every buffer size",
  "Tests send short fixed sequences through fixed pipelines.",
  [CC + "channel.hpp"], [("queue and step", CC + "channel.hpp: shared_process::enqueue, step, broadcast")],
  SEQ, "pipelines up to 5 stages")
p("C02", "Every branch of a split channel sees the whole stream",
  "When several processes are attached to one receiver, each of them receives every value in order, exactly once. A slow branch does not lose or reorder the values of the others. A branch that is dropped stops receiving and does not stall the remaining ones.",
  ["programs", "histories"], "every fan-out, per-branch buffer size, drop point and executor order",
  "Tests use two identical live branches.",
  [CC + "channel.hpp"], [("downstream list and suspend count", CC + "channel.hpp: downstream, shared_process::broadcast, clear_to_send")],
  SEQ, "up to 4 branches")
p("C03", "Merges combine their inputs by the stated strategy",
  "A merge of receivers drives the function attached to it by its strategy: zip_with calls it (or the await of a process) with the i-th value of every input for each i; round robin calls it with values taken cyclically in argument order; unordered calls it with every value of every input exactly once, keeping each input's own order. No value is lost or duplicated, and the result depends only on the values sent, not on the arrival order (except for the order between inputs of unordered).",
  ["programs", "histories"], "every number of values per input, arrival interleaving, buffer size and executor order",
  "Tests send one to ten values in one arrival order.",
  [CC + "channel.hpp"], [("queue strategies", CC + "channel.hpp: zip_with_queue_strategy, round_robin_queue_strategy, unordered_queue_strategy")],
  SEQ, "2 or 3 inputs")
p("C04", "Channel handles keep exact ownership: closing, copying and dropping",
  "Values sent before a sender is closed, assigned over or destroyed are still delivered; the stream ends when the last sender handle is gone, and not before, in which case everything downstream ends and is released. Copies, moves, swaps and assignments of sender and receiver handles transfer or share exactly that responsibility. When all handles are gone every process and every undelivered value is destroyed exactly once.",
  ["histories"], "every history of handle operations interleaved with sends and executor steps",
  "Tests copy and swap handles in isolation, not in the middle of a running stream.",
  [CC + "channel.hpp"], [("sender and receiver counts", CC + "channel.hpp: add_sender, remove_sender, add_receiver, remove_receiver")],
  SEQ, "bounded history length")
p("C05", "Back-pressure bounds a stage's queue by its buffer size",
  "A process that feeds a stage with a bounded buffer (for a split, every stage it feeds) stops producing while that buffer has no room and resumes when room appears, so the number of values waiting in front of the stage stays within the bound plus the one being produced. buffer_size 0 means unbounded, the default is 1, and explicit sends are never refused. No bound and no consumption order can make the pipeline stop for good while values remain.",
  ["histories", "configurations"], "every assignment of buffer sizes to stages and every executor order",
  "Tests measure two fixed sizes on one schedule.",
  [CC + "channel.hpp"], [("suspend count and clear to send", CC + "channel.hpp: broadcast, clear_to_send, pop_from_queue")],
  SEQ, "pipelines up to 5 stages")
p("C06", "An exception in a process reaches the next process as an error, in order",
  "When a process throws, or an error is sent, the process after it receives that error in the place of the value: a process with set_error gets it there, exactly once and in stream order, and a function passes it on in the place of its result. A process with await and yield but without set_error skips it. The throwing process goes on with the next value and no value of anyone is lost.",
  ["programs", "fault_sequences"], "every subset of throwing inputs at every stage, and every executor order",
  "Tests throw once in a two-stage pipeline.",
  [CC + "channel.hpp"], [("error messages", CC + "channel.hpp: find_argument_error, set_process_error")],
  SEQ + " with injected exceptions", "pipelines up to 4 stages")
p("C07", "Annotations set exactly the executor and buffer size of their process",
  "A process attached with an executor and/or a buffer size, combined with & in any of the supported orders, runs on that executor and with that buffer size; without annotations it runs on the executor of the process it is attached to with a buffer of one. The annotations affect no other process.",
  ["configurations"], "every expression over a process, an executor and a buffer size",
  "Tests combine a few of the orders.",
  [CC + "channel.hpp", CC + "executor_base.hpp"], [("annotation operators", CC + "channel.hpp: operator&, annotated_process")],
  SEQ, "all groupings of the three operands")
p("C08", "A process object is driven by the await/yield/close protocol",
  "The library calls await only while the process's state is await and a value is available, yield only while its state is yield or its await timeout has expired, and close only when no more values are coming; calls to one process never overlap. A process that asks to yield at a later time is not called before that time. Everything it yields is delivered in order, and values keep flowing as long as it makes progress; a value that arrives ends an await with a timeout at once.",
  ["programs", "histories"], "every deterministic process (accumulators, expanders, timed) and every executor and timer order",
  "Tests use three hand-written processes.",
  [CC + "channel.hpp"], [("step", CC + "channel.hpp: shared_process::step, dequeue, try_broadcast")],
  SEQ, "generated state machines with up to 4 values per burst")
p("C09", "Channels keep their guarantees under concurrent senders and executors",
  "With several threads sending into, attaching to, closing and dropping channels while pool threads run the processes, every sent value is delivered exactly once, in order per sender, to every branch, and no process is ever entered by two threads at once. No interleaving deadlocks, stalls a stream with values waiting, or touches freed memory.",
  ["schedules", "programs"], "every small pipeline over 2 to 4 threads and every interleaving of its synchronization operations",
  "Tests run on an unsteered pool.",
  [CC + "channel.hpp"], [("process and downstream locks", CC + "channel.hpp: shared_process::_process_mutex, _downstream_mutex")],
  DET, "schedules sampled, not exhausted")
# ------------------------------------------------------------------ executors
p("E01", "The task pool runs every submitted task exactly once",
  "Every task given to the low, default or high executor, from any thread including pool threads, before pre_exit, is executed exactly once, at some time without further submissions being needed. This holds for any number of cores, and while other workers are busy, waiting or being added.",
  ["schedules", "configurations"], "every submission pattern over several threads, every pool size and every interleaving of workers",
  "Tests submit many tasks on one machine's schedule; a lost wakeup needs a particular interleaving.",
  [CC + "default_executor.hpp", "src/concurrency/default_executor.cpp"], [("work stealing queues", CC + "default_executor.hpp: notification_queue, priority_task_system::run")],
  DET, "1 to 4 workers")
p("E02", "Priorities order the tasks that wait in one queue",
  "When one worker serves the pool, waiting tasks are taken in priority order (high, default, low), and tasks of equal priority in submission order. No task is starved forever once higher ones stop arriving.",
  ["histories", "schedules"], "every sequence of submissions at every priority while the worker is busy",
  "Tests compare totals on a multi-core pool, where ordering is only statistical.",
  [CC + "default_executor.hpp"], [("priority and sequence number", CC + "default_executor.hpp: merge_priority_count, element_t::greater")],
  DET + "; pool of one worker so that the order is exact", "up to 40 tasks")
p("E03", "A serial queue runs its tasks one at a time, in order",
  "Tasks given to one serial queue, from any threads, run on its underlying executor one at a time and in the order they were enqueued, each exactly once, in both schedule modes. single mode returns to the executor between tasks; all mode runs what was queued at its start. Independent queues do not wait for each other, and tasks still run when the queue object is gone.",
  ["schedules", "histories"], "every enqueue history over several threads and queues and every executor order",
  "Tests check sums and order of one fixed batch.",
  [CC + "serial_queue.hpp"], [("running flag", CC + "serial_queue.hpp: serial_instance_t::enqueue, single, all, empty")],
  DET + "; and step-by-step on manual executors", "bounded history length")
p("E04", "Timers and delayed executors run each task once, not early, in due order",
  "A task given to the system timer runs exactly once, never before its delay has passed however long that is, and tasks with different due times run in due order whatever order they were scheduled in. execute_at and execute_delayed pass each task to the underlying executor once, after the delay, or immediately for a zero delay, however often the executor is used.",
  ["schedules", "inputs"], "every set of delays, every scheduling order and every interleaving, in virtual time",
  "Tests sleep for a few fixed delays in real time.",
  [CC + "system_timer.hpp", CC + "executor_base.hpp"], [("timed queue", CC + "system_timer.hpp: timed_queue_run, greater_first"), ("delayed executor", CC + "executor_base.hpp: execute_at")],
  DET, "virtual clock")
p("E05", "pre_exit runs every handler once, newest first, and waits for the pool",
  "pre_exit invokes every handler registered with at_pre_exit exactly once in reverse order of registration, including handlers registered while it runs. When it returns, the task pool has finished: all tasks submitted before it began have run, and no task is running.",
  ["histories", "schedules"], "every registration history, including from handlers, and every pool load at exit",
  "The tests call it once at the end of a run.",
  ["src/pre_exit.cpp", "src/concurrency/default_executor.cpp", CC + "default_executor.hpp"], [("handler stack", "src/pre_exit.cpp: pre_exit_stack_t"), ("join", CC + "default_executor.hpp: priority_task_system::join")],
  DET, "bounded histories")
p("E06", "Waiting inside pool tasks does not exhaust the pool",
  "A task on the pool that awaits futures computed by tasks already submitted to the same pool always makes progress, for any nesting of waits below the pool's thread limit, even with a single worker. Extra threads are added only when waits require them, never beyond the limit, and they serve any queued task.",
  ["schedules", "programs", "configurations"], "every tree of nested waits, every pool size and every interleaving",
  "One test blocks a fixed number of workers once.",
  [CC + "await.hpp", CC + "default_executor.hpp"], [("wake or add a thread", CC + "await.hpp: invoke_waiting; default_executor.hpp: wake, add_thread, waiter")],
  DET, "nesting below the thread limit")
# ------------------------------------------------------------------ tasks, forest, utilities
p("T01", "task is a faithful move-only function wrapper",
  "A task holds the callable it was given, whatever its size and alignment, and calling it calls that object with the given arguments and returns its result or exception. Moving, assigning, swapping and resetting transfer or destroy the callable exactly once and never copy it; bool conversion, comparison with nullptr, target and target_type report what is held. Calling an empty task throws bad_function_call (or terminates for a noexcept signature).",
  ["histories", "inputs"], "every history of constructions, moves, swaps and calls over callables of all storage classes",
  "Tests use a few callables and single operations.",
  [CC + "task.hpp"], [("small object optimisation", CC + "task.hpp: model<F, true>, model<F, false>")],
  SEQ + "; oracle: reference model with instance counting", "callables of 1 to 256 bytes")
p("G01", "Forest edits change exactly the edited nodes",
  "insert, push, pop, erase of nodes and ranges, insertion of copies and clear leave every other node in place, with the same value, parent, order and a still valid iterator. Erasing a node with children puts the children in its place; erasing a range of edges removes the nodes wholly inside it. The returned iterators and the size are those of the abstract tree.",
  ["histories"], "every history of edits on every tree shape",
  "Tests edit one fixed tree.", ["include/stlab/forest.hpp"], [("four-link nodes", "include/stlab/forest.hpp: node_base, forest::erase, forest::insert")],
  SEQ + "; oracle: pointer-free reference tree compared edge by edge after every step", "trees up to about 60 nodes")
p("G02", "Splice, insert_parent and reverse relocate subtrees intact",
  "splice in all its forms moves exactly the given nodes with their subtrees, between or within forests; insert_parent puts a new node above the given children; reverse reverses the order of the given children and nothing else. No node is created, lost, copied or reallocated, iterators stay valid and follow their nodes, and the sizes of both forests stay right.",
  ["histories"], "every history of relocations on every tree shape, including within one forest",
  "Tests splice single nodes in fixed trees.", ["include/stlab/forest.hpp", "include/stlab/algorithm/reverse.hpp", "include/stlab/iterator/set_next.hpp"], [("relinking", "include/stlab/forest.hpp: forest::splice, insert_parent, reverse")],
  SEQ + "; oracle: pointer-free reference tree", "trees up to about 60 nodes")
p("G03", "Every forest iterator and range visits its defined sequence",
  "Full-order iteration visits each node once on its leading and once on its trailing edge around its children; preorder, postorder, child, depth, filtered and reverse iterators and ranges visit the subsequences their definitions give, forwards and backwards, with matching depths, from the whole forest or any subtree. Stepping back undoes stepping forward, by every form of the step operators; the edge of a position can be assigned and then equals the position reached by walking there; conversion to a const iterator keeps the position.",
  ["inputs"], "every tree shape and every starting node",
  "Tests traverse one fixed tree.", ["include/stlab/forest.hpp"], [("iterators", "include/stlab/forest.hpp: forest_iterator, edge_iterator, filter_fullorder_iterator, reverse_fullorder_iterator, depth_fullorder_iterator, child_iterator")],
  SEQ + "; oracle: recursive traversal of a reference tree", "trees up to about 30 nodes")
p("G04", "Forests are regular values",
  "A copy of a forest is equal to it and independent of it; moving and swapping transfer all nodes without touching them, leaving a usable forest behind; equality holds exactly when shape and values are the same. Size, emptiness and front/back agree with the content after every operation, and all values are destroyed exactly once.",
  ["histories"], "every history of copies, moves, swaps and edits over several forests",
  "Tests copy one fixed tree.", ["include/stlab/forest.hpp"], [("copy and move", "include/stlab/forest.hpp: forest(const forest&), operator=, swap, operator==")],
  SEQ + "; oracle: reference trees and instance counting", "three forests")
p("G05", "Flatten, unflatten, transcribe and equal_shape agree with the tree",
  "flatten writes the full-order edge sequence, unflatten is its inverse, transcribe builds a forest of the same shape with each value projected, and equal_shape holds exactly for forests of the same shape whatever their values.",
  ["inputs"], "every pair of tree shapes, including differing lengths and unknown sizes",
  "Tests use one fixed tree.", ["include/stlab/forest_algorithms.hpp"], [("algorithms", "include/stlab/forest_algorithms.hpp")],
  SEQ + "; oracle: reference tree, round trip", "trees up to about 30 nodes")
p("U01", "Reversal algorithms reverse exactly the range they are given",
  "reverse, reverse_copy, reverse_append, reverse_nodes and reverse_until give the reversed sequence of their input range, with the stated return positions, on every range and leave everything outside it alone.",
  ["inputs"], "every sequence, subrange and stop position",
  "No test covers them directly.", ["include/stlab/algorithm/reverse.hpp", "include/stlab/iterator/set_next.hpp"], [("algorithms", "include/stlab/algorithm/reverse.hpp")],
  SEQ + "; oracle: index arithmetic on vectors", "up to 24 elements")
p("U02", "Tuple and index-sequence algorithms agree with their elementwise meaning",
  "for_each, find, get_i, void_i and the optional-tuple application helpers visit, find and apply to exactly the elements their definitions name, in order, for every index including the ones out of range; voidless and placeholder transformations drop exactly the void positions.",
  ["inputs"], "every tuple content and index",
  "Tests use one tuple each.", [CC + "tuple_algorithm.hpp", "include/stlab/utility.hpp", "include/stlab/functional.hpp"], [("algorithms", CC + "tuple_algorithm.hpp")],
  SEQ + "; oracle: the same operation on a vector", "tuples up to 6 elements")
p("U03", "scope constructs, invokes and releases in order",
  "scope<T>(args..., f) holds a T constructed from the arguments exactly while f runs, returns what f returns and releases T also when f throws; scope on a mutex excludes other holders.",
  ["inputs", "fault_sequences"], "every argument list and every throwing point",
  "Tests use it once.", ["include/stlab/scope.hpp"], [("scope", "include/stlab/scope.hpp")],
  SEQ + "; oracle: event log", "small")
p("U04", "Progress tracking counts the tracked work exactly",
  "steps() is the number of live tracked functions plus nothing else, completed() the number of finished calls, and the callback sees both after every call. Copying, moving, assigning and destroying tracked functions keep the counts exact, and tracked functions still work when the tracker is gone.",
  ["histories"], "every history of copies, moves, assignments, calls and destructions",
  "No test covers it.", [CC + "progress.hpp"], [("counts", CC + "progress.hpp: tracker_server, tracker_client")],
  SEQ + "; oracle: reference counts", "bounded history length")
p("R01", "The library is free of data races",
  "Programs that use futures, channels, executors, serial queues, timers and await from several threads, in the ways their interfaces allow, never contain two unsynchronized conflicting memory accesses inside the library, and no synchronization object is destroyed while in use.",
  ["schedules", "programs"], "every small multi-threaded program and every interleaving",
  "A race shows up only under a detector on an interleaving that exposes it.",
  [CC + "future.hpp", CC + "channel.hpp", CC + "default_executor.hpp", CC + "serial_queue.hpp", CC + "system_timer.hpp", CC + "await.hpp"], [("locks", "all of the above")],
  "generated concurrent programs over all components under a controlled-concurrency scheduler (random walk + PCT schedules, virtual time); oracle: vector-clock happens-before race detection on every access of the instrumented code, plus detection of freed memory and destroyed synchronization objects in use; with shrinking of program and schedule", "races are found on the sampled schedules only")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            d = {"id": q["id"], "title": q["title"], "statement": q["statement"],
                 "quantifier": {"over": q["over"], "text": q["text"]},
                 "why_tests_cant": q["why"],
                 "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                             "observe_at": ["public API"], "hook_needed": None}}
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for q in P:
        if q["id"] in PROPS:
            checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s quick" % q["id"],
                           "thorough_cmd": "python3 check.py %s thorough" % q["id"],
                           "evidence_file": "evidence/%s.json" % q["id"],
                           "technique": "property-based testing: " + q["technique"],
                           "level": "exploration", "level_note": q["note"]})
        else:
            na.append({"property": q["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "hooks": {"guard": "none", "enable": "no hooks: harnesses compile /repo's sources as they are; the controlled scheduler interposes pthread functions, clocks and the compiler's memory-access instrumentation callbacks from outside", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "All checks are generated-input search; see DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
