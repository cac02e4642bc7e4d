#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as data here so that the lines stay consistent)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("P01", "Readiness events are delivered for every ready registered descriptor",
  "While a descriptor is registered with a loop, whenever it is readable, writable or closed in a way its current interest mask selects, running the loop calls its callback with its own descriptor, its own argument and only event bits that are both requested and true (an error or hang-up alone is reported as EVENTS_CLOSED to whoever waits), again and again until the condition is consumed. Ready data is never left unreported while the loop keeps running, however many descriptors are ready at once and whatever else is registered. Changing the interest mask takes effect from the next poll.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of peer activity (arrival, drain, half-close, reset) with loop iterations, all sequences of registration, mask changes and deregistration over many descriptors, EINTR and failed polls",
  "test-events samples one pipe with one or two transitions; it cannot reach the product of mask changes, batch sizes above the per-poll event buffer, and peer timing",
  ["src/epoll.c", "src/events.c"],
  [("events_once/epoll backend poll and dispatch", "src/epoll.c: events_once_internal/events_poll_once"), ("interest update", "src/epoll.c: events_update_internal; src/events.c: events_set_event")],
  [("sys_event.fds[]", "per-descriptor callback, argument, interest and owner loop")])

p("P02", "No callback after deregistration, and registrations stay isolated",
  "After a descriptor is deregistered, its callback is never invoked again for that registration, even when the deregistration happens inside another callback of the same poll batch or the descriptor number is closed and reused straight away by a new registration. A deregistered descriptor can be registered again and behaves as new; registration, mask and timeout operations on one descriptor never change what another descriptor reports, and adding an out-of-range descriptor or deleting one that is not registered fails without effect. Removing every registration (or destroying the loop) ends the loop's work.",
  ["schedules", "histories"],
  "all sequences of add, delete, close, number reuse, mask and callback changes made from outside and from inside callbacks, in every batch order",
  "tests register and delete one descriptor at a time, outside callbacks",
  ["src/events.c", "src/epoll.c"],
  [("events_add / events_del", "src/events.c"), ("deferred epoll_ctl deletion (backend bits)", "src/epoll.c: events_update_internal, EPOLL_CTL_DEL path")])

p("P03", "Descriptor inactivity timeouts fire, once per arming, and never early",
  "A registered descriptor armed with a timeout of n seconds gets a timeout event if it is not re-armed, cancelled or deregistered, within the timer wheel's resolution after n seconds and never before the last whole second of it, counted from the loop's current time (durations beyond the wheel's span count as the span); it is reported exactly once per arming. Re-arming from inside any callback counts from that moment, cancelling (0) or deregistering silences it, and what happens to one descriptor's timeout never loses, moves or duplicates another's. ",
  ["schedules", "histories"],
  "all sequences of arming, re-arming, cancelling, deleting and firing over many descriptors and durations (including beyond the wheel's span), made outside and inside callbacks, under stalled loops and irregular poll timing",
  "tests wait for one real timeout of a second or two; wheel wrap-around, slot collisions and re-arming inside callbacks need minutes of real time and many descriptors",
  ["src/events.c"],
  [("timeout wheel", "src/events.c: events_set_timeout, events_handle_timeout_internal")],
  [("loop->timeout.vec / vec_of_vec", "bitmaps of descriptors due per wheel slot")])

p("P04", "Actor timers run on time, in due order, and exactly as often as asked",
  "A one-shot timer runs exactly once, not before its delay has elapsed on the monotonic clock, and each loop iteration runs the earliest timer that is due, so timers run in due order. A timer that is asked to repeat runs once per period until it is cleared, and a cleared timer never runs again. Timers created, repeated or cleared from inside timer callbacks keep these guarantees, and the loop keeps running while any timer is pending.",
  ["schedules", "histories", "fault_sequences"],
  "all sequences of create, repeat, clear (in and out of callbacks) with all delays, loop stalls and jumps of the real-time clock",
  "test-actors runs three timers at fixed delays under the real clock",
  ["src/events.c"],
  [("events_actor / events_repeat_actor / events_clear_actor", "src/events.c"), ("next-deadline computation", "src/events.c: events_once")])

p("P05", "A handled signal runs its callback once per arrival, whatever else runs then",
  "When a signal registered through the loop arrives, its callback runs once per delivery on whichever thread the system delivers it, with that signal's number and the argument it was registered with, and never when no arrival preceded it; arrivals pending together coalesce as the system coalesces them, and the last one is always followed by a callback. Signals arriving while callbacks run, while the loop polls, or between two polls are never lost, signals with different numbers do not hide each other, and a deregistered signal no longer calls back and has its default effect again. A loop with a registered signal counts as running, and a descriptor whose number is that of a signal keeps its own registration.",
  ["schedules", "fault_sequences", "histories"],
  "every point at which one or several signals can arrive relative to the loop's steps, with registration and removal in between",
  "tests raise one signal at one point of one thread",
  ["src/events.c"],
  [("signal flag and dispatch", "src/events.c: events_add with EVENTS_SIGNAL, signal handler, events_signal dispatch in events_once")])

p("P06", "Every task runs exactly once to completion, fairly, with its state intact",
  "Every task created on a thread starts exactly once with exactly the arguments it was given, runs until it returns, and resumes after each yield at the point it left with its locals, saved registers and task data unchanged. Runnable tasks of one thread are resumed in the order they became runnable, so a yielding task cannot be overtaken indefinitely. The scheduler returns only after all its tasks have finished.",
  ["schedules", "programs", "histories"],
  "all programs of nested task creation, yields, delays, awaits and returns, with any number of arguments and stack sizes",
  "tests run a handful of fixed task programs whose output is compared by eye",
  ["src/events.c", "src/asm.c"],
  [("run queue and switching", "src/events.c: task_push, tasks_schedulering, task_yielding, coro_switch"), ("async_run / events_start", "src/events.c")])

p("P07", "delay suspends a task for at least its time and wakes it in due order",
  "A task that calls delay(ms) does not continue before ms milliseconds have elapsed on the monotonic clock, other tasks keep running meanwhile, and it continues within a bounded time after it is due however many tasks sleep. Sleepers on one thread wake in due order and each wakes exactly once; delay reports the time actually slept. Clock steps of the wall clock do not change this.",
  ["schedules", "programs", "fault_sequences"],
  "all sets of sleepers with all durations, mixed with runnable, I/O-waiting and finishing tasks, on the main and pool threads, with stalls and wall-clock jumps",
  "tests use a few fixed delays and check the order once",
  ["src/events.c"],
  [("sleep queue", "src/events.c: delay, tasks_sleep insertion, deque/sleep handling in events_once/async loop")])

p("P08", "Awaiting a task yields its own result, once it is finished, and never another's",
  "await_for on a task returns only after that task has terminated and yields exactly the value it returned; results_for of a finished task gives the same value every time until consumed or the run ends, ids of live tasks are unique, and no result is lost or swapped however many results were created before. A cancel request reaches exactly the task it names and no other, and readiness queries are true exactly from termination on.",
  ["schedules", "programs", "histories"],
  "all numbers of tasks (beyond every internal table size), creation and awaiting orders, and interleavings of threads creating and finishing tasks concurrently",
  "tests await fewer than ten tasks on one thread",
  ["src/events.c"],
  [("result table", "src/events.c: tasks_create_result, tasks_result_set, results_for, await_for, task_set_canceled")],
  [("sys_event.results", "shared table from result id to value and status")])

p("P09", "Generators hand over every yielded value in order, exactly once",
  "Each yielded() on a generator returns the next value passed to yielding() by that generator, in order, without loss, repetition or mixing with other generators, whichever tasks consume them. A generator runs at most one value ahead of its consumers, and the end of its function is reported as an empty value, each time it is asked again, never by a stale or repeated one. Several generators and ordinary tasks interleave without affecting each other.",
  ["schedules", "programs"],
  "all numbers of generators, lengths, consumption patterns (partial, interleaved, from several tasks)",
  "test-generator consumes one or two generators in a fixed order",
  ["src/events.c"],
  [("generator handoff", "src/events.c: generator, yielding, yielded")])

p("P10", "A task group waits for exactly its members and returns all their results",
  "tasks_wait returns only after every task started since task_group() has finished, and its array contains the result id of each member that returned a value exactly once, each giving that member's own value. Members may finish immediately, sleep, yield, start further tasks or wait on descriptors in any mix; tasks outside the group neither delay it nor appear in it. Groups can be used one after another and by several tasks at a time.",
  ["schedules", "programs"],
  "all group sizes (including empty and larger than the initial capacity), member behaviours and nesting of other tasks",
  "test-group-waits uses a handful of members with the same behaviour",
  ["src/events.c"],
  [("task_group / tasks_wait", "src/events.c")])

p("P11", "A waitgroup over the thread pool waits for all members and keeps their results",
  "waitfor returns only after every task started with go() for that waitgroup has finished on whichever pool thread it ran, and returns the result id of every member that returned a value exactly once, with that member's own value. Each member runs exactly once, the members' effects are visible to the waiter, and the call makes progress whatever the thread interleaving, the number of members relative to capacity and cores, and the mix of sleeping and yielding members.",
  ["schedules", "programs", "configurations"],
  "all thread interleavings, core counts, capacities and member behaviours",
  "tests run one group size under the schedules the machine happens to produce",
  ["src/events.c", "src/deque.c"],
  [("waitgroup / waitfor / posting to pool threads", "src/events.c: waitgroup, waitfor, __thrd_waitfor, tasks_poster"), ("work-stealing deque", "src/deque.c")])

p("P12", "Every task handed to the thread pool runs exactly once",
  "Every task started with go() runs exactly once, on some pool thread, to completion, with the arguments it was given, whatever the number of producers and consumers, the queue length (including queue growth) and the thread interleaving. No task is lost, duplicated or starved while pool threads are alive, and the values produced before go() are visible inside the task.",
  ["schedules", "programs", "configurations"],
  "all interleavings of owner push, owner pop and concurrent steals, including queue resizing, and all pool sizes",
  "tests start a few tasks; the windows between reading an index and claiming a slot are a few instructions wide",
  ["src/deque.c", "src/events.c"],
  [("deque push/take/steal/resize", "src/deque.c"), ("go() distribution and stealing loop", "src/events.c")])

p("P13", "Work queued to a worker thread runs once and its promise carries its outcome",
  "Every job queued to a worker runs exactly once on that worker, and queue_get returns, only after it has finished, exactly that job's return value; jobs queued by one task to one worker run in the order queued. While a task waits for a promise the other tasks of its thread keep running, queue_wait calls back once with each finished promise's result, and the error number a job ends with is what its waiter sees. No job or completion is lost when many tasks queue concurrently, from whichever threads.",
  ["schedules", "programs", "configurations"],
  "all interleavings of submission, execution and completion over several workers and submitting tasks",
  "tests queue a few jobs one after another",
  ["src/future.c", "src/events.c"],
  [("queue_work / queue_get / queue_wait / promise_*", "src/future.c, src/events.c")])

p("P14", "A thread future delivers the thread's value or its exception exactly once",
  "thrd_get returns, only after the thread function has finished, exactly the value it returned, and if the function ended with an exception it is thrown in the caller instead, whatever the timing between the thread's end and the caller's wait. thrd_is_done is true only after the function finished, and from then on thrd_get does not block; thrd_wait keeps calling the given function until then. Concurrent futures never mix their values.",
  ["schedules", "programs"],
  "all interleavings of thread completion with the polling, waiting and getting side, for values and exceptions",
  "tests sample a few timings; the window between publishing the outcome and the thread's exit is tiny",
  ["src/future.c"],
  [("thrd_async / thrd_get / thrd_wait / thrd_is_done", "src/future.c")])

p("P15", "Exceptions reach the nearest matching handler, and finally always runs",
  "A thrown exception transfers control to the innermost enclosing try of the same thread of control whose handler matches its name, with that name, message and origin available there; a block without match passes it outwards, finally blocks run exactly once on every way out, rethrow continues outwards with the same exception, and code after a handled block continues normally. Uncaught exceptions terminate with a report. A hardware fault or raised signal inside a try block behaves as the corresponding exception.",
  ["programs", "schedules", "fault_sequences"],
  "all nestings of try, catch, catch_any, catch_if, finally, throw and rethrow across function calls, threads and tasks, with faults arriving at any point inside the block",
  "tests run fixed nestings; the product of nesting, matching, rethrow and thread interleaving is not sampled",
  ["src/except.c", "include/except.h"],
  [("ex_throw / try_start / try_next / try_catching / try_finallying / try_rethrow", "src/except.c"), ("signal to exception mapping", "src/except.c: ex_signal_setup, handler")])

p("P16", "Deferred cleanups run exactly once, in reverse order, on every exit path",
  "Every cleanup registered in a task, guard section or thread scope runs exactly once, in reverse order of registration, when that scope ends by normal end, by return or by exception, and not before. Cleanups of one scope never run for another, in particular not for another task that interleaves with it, and memory protected by the scope is released once. An exception caught as recovered inside a cleanup stops there; otherwise it continues outwards after the cleanups.",
  ["programs", "schedules"],
  "all nestings and interleavings of scopes in tasks, guard sections and threads, and all exit paths",
  "tests cover single scopes in a fixed order",
  ["src/except.c", "src/events.c"],
  [("fence / defer / scope_unwind / guard", "src/except.c, include/except.h"), ("task scope end", "src/events.c: task finish path")])

p("P17", "Asynchronous reads and writes move stream bytes exactly, without blocking others",
  "Bytes written with async_write to a pipe, a named pipe or a stream socket arrive at the reader in order, complete and unduplicated, and at that reader alone: a name opens the pipe made under it, a descriptor reads and closes only itself, a write call returns the full count or an error, a read returns available bytes, 0 at end of stream or an error. A waiting task resumes once its descriptor is ready, closed or in error, other tasks keep running meanwhile, and short transfers, would-block results and interrupted system calls are invisible to the caller.",
  ["schedules", "fault_sequences", "programs"],
  "all transfer sizes, buffer sizes, numbers of connections, short reads and writes, EAGAIN, EINTR, peer stalls, closes and resets at any byte",
  "tests echo a few short strings over an unloaded loopback",
  ["src/async_io.c", "src/events.c", "src/os_unix.c"],
  [("async_read / async_read2 / async_write / async_wait", "src/async_io.c, src/events.c"), ("os_mkfifo / os_open / os_read / os_close", "src/os_unix.c")])

p("P18", "Connections are accepted and established exactly once, or fail cleanly",
  "Every incoming connection on a listening TCP or Unix-domain socket is returned by exactly one accept call, in arrival order, as a usable non-blocking descriptor with the peer's address; a connect call returns a connected descriptor or a failure with a meaningful error. Whatever fails (resolution, creation, binding, refusal, timeout, descriptor limit), the call reports failure, no descriptor is leaked and the listener keeps working.",
  ["schedules", "fault_sequences", "configurations"],
  "all arrival patterns of peers, backlog sizes, refused or slow handshakes, aborted connections, EINTR and descriptor exhaustion at each system call",
  "tests connect one or two clients to a healthy server",
  ["src/async_io.c", "src/async_uds.c"],
  [("async_bind / async_accept / async_connect", "src/async_io.c"), ("uds_bind / uds_accept / uds_connect", "src/async_uds.c")])

p("P19", "Each received datagram is delivered whole, once, with its sender",
  "udp_recv returns one packet per received datagram, with exactly its bytes and length and its sender's address, in arrival order, and replies sent on a packet go to that packet's sender. Datagrams are never merged, split or attributed to another sender, packets stay valid for their handler until it ends, and loss, duplication and reordering by the network only lose, repeat or reorder whole packets.",
  ["schedules", "fault_sequences"],
  "all interleavings of senders and handlers with datagram loss, duplication, reordering, delay, EAGAIN and EINTR",
  "tests send one datagram each way",
  ["src/async_udp.c", "src/async_io.c"],
  [("udp_bind / udp_recv / udp_send / udp_handler", "src/async_udp.c"), ("async_sendto / async_recvfrom", "src/async_io.c")])

p("P20", "File operations do what the system call did, off-thread, and never lie",
  "Each asynchronous file operation has exactly the effect and result of its synchronous counterpart on the same file, including its error number on failure, and runs without blocking other tasks. Whole-file operations (read, write, copy) either transfer every byte or report failure, under short transfers and disk errors alike; a successful write replaces the content and a successful copy leaves source and destination identical. Every descriptor opened is closed and numbers are not leaked.",
  ["fault_sequences", "inputs", "schedules"],
  "all contents and sizes, sequences of operations by several tasks and workers, short reads and writes, EINTR, EIO, ENOSPC, EMFILE at each call",
  "tests use small files on a healthy disk where no transfer is ever short",
  ["src/async_io.c", "src/events.c", "src/os_unix.c"],
  [("fs_* wrappers and worker functions", "src/async_io.c"), ("copyfile / os_open / os_close", "src/os_unix.c")])

p("P21", "Directory watches report every change to the right handler until removed",
  "While a directory is watched, every creation, modification, removal or move of an entry is reported to that watch's handler with the right kind and name, in order, however many changes arrive in one batch; entries of one directory are never reported to another watch. Removing a watch stops its reports and no other's, a new sub-directory of a recursive watch becomes watched, and the watch ends and releases its resources when cancelled or when all its directories are removed. A watch also ends by itself when its directory is removed; nothing is left of an ended watch, and a watch that ended or never began does not keep the program running.",
  ["histories", "schedules"],
  "all sequences of file-system changes over several watched directories, batching of events in a read, and removal of watches in and out of handlers",
  "test-fs_events makes a few changes one by one",
  ["src/events.c", "src/async_io.c", "src/os_unix.c", "src/epoll.c"],
  [("events_watch / events_remove / inotify handler", "src/events.c, src/os_unix.c"), ("fs_events", "src/async_io.c")])

p("P22", "A spawned process delivers all its output and its exit exactly once",
  "For a spawned child, every byte it writes to its output is passed to the output callback in order and once, including output still buffered when it exits, and the exit callback runs exactly once with the child's exit status or signal. The command and its arguments and environment reach the child exactly as given, failure to start is reported, no descriptor is leaked into or by the parent, and no zombie remains.",
  ["schedules", "fault_sequences", "inputs"],
  "all interleavings of child output, exit and parent polling, output sizes beyond the pipe buffer, kill signals, failing pipe, fork or exec",
  "tests spawn a couple of well-behaved commands",
  ["src/events.c", "src/os_unix.c", "src/async_io.c"],
  [("exec / exec_info / exec_wait", "src/os_unix.c"), ("spawn and its waiting tasks", "src/async_io.c / src/events.c")])

p("P23", "The allocator never hands out overlapping, misaligned or lost memory",
  "Every block returned by the bundled allocator is at least as large as requested, suitably aligned, disjoint from every other live block, and keeps its content until freed or reallocated, on every thread; reallocation preserves the common prefix and calloc returns zeroes. Blocks may be freed by another thread or after their owner ended, and freed memory becomes reusable so a bounded workload uses bounded memory. When the system refuses memory an allocation fails with null and earlier blocks stay intact.",
  ["schedules", "histories", "fault_sequences"],
  "all sequences of allocate, reallocate and free across threads with any size class, cross-thread free, thread exit and failing map calls",
  "only one allocation of a few sizes happens to run under the other tests; there is no allocator test",
  ["src/rpmalloc.c"],
  [("span/heap management and deferred cross-thread free", "src/rpmalloc.c")])

p("P24", "Shutting down ends everything once, and the system can be started again",
  "When the last task has finished, running the system returns, every pool and worker thread ends, and all descriptors and memory the library created for itself are released; nothing of the library runs afterwards. A loop can be destroyed at any time with registrations left, other loops keep working, and initialising again gives a fresh system with the same behaviour. A start that fails for want of descriptors or threads says so, releases what it took, and leaves a later start working.",
  ["schedules", "configurations"],
  "all interleavings of the last tasks with pool threads, worker threads and loop destruction, repeated start and stop, failing descriptor and thread creation",
  "tests exit the process right after the last task, so leaks, stuck threads and restart are never observed",
  ["src/events.c", "src/future.c"],
  [("events_destroy / events_deinit / thrd_pool_shutdown / async_run end", "src/events.c")])

p("P25", "Lookups and streamed programs answer each caller with its own result",
  "A task that looks up a host name or an address, asks for random bytes, or opens a program as a stream waits until its own request is answered and gets the answer to that request, or the error of its own cause, however many such requests other tasks and threads have under way and however slow they are; the answer stays valid and unchanged while the task uses it. Other tasks keep running meanwhile. A program opened as a stream delivers all of its output in order and receives all of its input, and closing the stream gives its exit status. Nothing of a finished request is left behind.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of requests of many tasks and pool threads with resolver delays, failures and child process behaviour",
  "tests look up one name at a time on a network that answers, so answers never meet and never fail",
  ["src/async_io.c", "src/future.c", "src/os_unix.c"],
  [("async_gethostbyname / async_getaddrinfo / async_getnameinfo / async_getentropy / promise_popen and friends", "src/async_io.c")])

p("P26", "A system that keeps working gives back what finished work used",
  "Repeating the same work any number of times (tasks, groups, generators, jobs, tasks on other threads, thread futures, exceptions, connections, datagrams, files, children, watches, lookups, streamed programs, timers, descriptors, loops, cancelled tasks, and all of these failing) does not use more and more memory or descriptors: once the work of a round has finished and what it opened was closed, as much is in use as after the round before. Only the record of each task's result and each generator's handle is kept until the end.",
  ["histories", "schedules", "fault_sequences"],
  "all repeated mixes of activities, with the interleavings and failing calls each round meets",
  "tests do everything once, so what is never given back does not show",
  ["src/events.c", "src/async_io.c", "src/future.c", "src/os_unix.c", "src/except.c", "src/async_udp.c", "src/async_uds.c", "src/arrays.c", "src/deque.c"],
  [("task_delete / deferred frees / futures_pool jobs / events_free_fd / target data", "src/")])

p("P27", "Arrays and text helpers give every task what their definition says",
  "Whatever other tasks and threads do meanwhile, a dynamic array holds exactly the items its operations put there, in order, across growth, copies, removals at either end or in the middle, iteration and refused changes of a tuple; and the text helpers (duplicates, parts, pieces, joins, replacements, padding, numbers, encodings, urls, path parts, formatted texts) answer with what their definition says for every input, write nowhere else, and a text they give to a task stays unchanged for as long as that task runs and is given back when it ends. The number text of str_itoa is promised only until the thread that asked asks again.",
  ["inputs", "schedules", "histories"],
  "all sequences of operations and inputs, interleaved with other tasks and pool threads doing the same",
  "tests use one fixed text or array in one task at a time, so shared buffers, lifetimes and odd inputs never show",
  ["src/arrays.c", "src/swar.c", "src/except.c"],
  [("str_* / mem_* / parse_uri / pathinfo / array $append, $remove, $shift, $copy", "src/arrays.c")])

p("P28", "A task's identity, data and suspension are its own",
  "While a task runs it is the active task with its own unchanging id and name, and the data given to it is what it reads back, whatever other tasks on its thread and on other threads do meanwhile; a task that is not over is never reported as over, nor as cancelled when nobody cancelled it. A task that suspends itself goes on only when it is resumed, once for each resume, where it stopped and as itself, while the task that resumed it also goes on. A guarded task runs its function once with its argument, and its cleanup once, after the end, also when it throws or recovers. What is kept with a descriptor stays with that descriptor until it is changed or the descriptor is closed, for every descriptor number.",
  ["schedules", "histories", "inputs"],
  "all interleavings of tasks on the main and the pool threads that suspend, resume, set data and keep data with descriptors of any number",
  "tests use one or two tasks in a fixed order, so another task's state never shows",
  ["src/events.c", "src/except.c"],
  [("active_task / task_id / task_data / suspend / resume / go_guard", "src/events.c"), ("events_set_target_data / events_target_data", "src/events.c")])

p("P29", "Threads end with their own code, and their slots stay apart",
  "A thread created with os_create runs its function once with its argument. os_join comes back with that thread's own code only after the thread has ended, or reports a timeout no earlier than the given time while it has not; os_exit ends the calling thread at once. A thread-local slot holds for every thread only what that thread put there, begins empty, and its destructor is called once per thread that left something in it, with what it left, when that thread ends. os_sleep takes at least the time it was given. A thread that cannot be created does not run.",
  ["schedules", "histories", "fault_sequences"],
  "all interleavings of threads that create, join, detach, end and use slots, with failing thread creation, signals and stalls",
  "tests create one or two threads and join them when they have long ended",
  ["src/os_unix.c"],
  [("os_create / os_join / os_exit / os_detach / os_tls_* / os_sleep", "src/os_unix.c")])

p("P30", "A program's own allocator serves the whole system, and gets its blocks back",
  "A program may set its own allocator before it starts the system. From then on, through every later start as well, each block the library uses or hands out comes from it and none from elsewhere, whatever fails meanwhile; a block is given back or reallocated at most once and only if it came from it; when the system has shut down, what the library took for itself has been given back. An incomplete set of functions is refused and leaves the one in use.",
  ["schedules", "histories", "fault_sequences"],
  "all programs and failures in which memory is taken by one part, thread or start of the system and given back by another",
  "no test sets an allocator; with the bundled one a block taken or freed past the seam goes unnoticed",
  ["src/events.c", "src/except.c", "src/async_io.c", "src/deque.c", "src/arrays.c"],
  [("events_set_allocator / events_malloc / events_realloc / events_calloc / events_free", "src/events.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        x["statement"] = x["statement"].strip()
        f.write(json.dumps(x) + "\n")
print(len(P))
