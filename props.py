"""Which workloads decide which property, and what the evidence says about them."""
COMPONENTS = {
    "real": ["all of src/: events.c future.c except.c arrays.c async_io.c async_udp.c async_uds.c os_unix.c epoll.c rpmalloc.c (compiled from the current tree, -O0, context-switch assembly included)"],
    "stub": ["Linux kernel: descriptors, pipes, eventfd, epoll, poll, sockets, files, inotify, processes, signals, clocks, mmap (sim/kern.c fs.c proc.c)",
             "pthreads: threads, mutexes, condition variables, thread-local keys, join (sim/core.c)",
             "peers, children, network: scripted environment processes of the workload", "name resolution: fixed table",
             "malloc behind the library: sim/alloc.c with freed-block detection (the bundled allocator is run for P23)", "TLS (async_tls.c): not built"],
    "assumptions": ["sequentially consistent memory: every interleaving of single memory accesses can occur, store buffering is not modelled",
                    "the kernel model follows Linux; it was written from the documented behaviour of the calls the library makes",
                    "what is shown holds for the seeds explored: a search, not a proof"],
}
NOTE = ("Seeded search over generated programs, schedules, timings and injected faults of the real library code under a simulated kernel and scheduler; "
        "holds on every execution explored, no claim beyond them. Trusts the kernel model and sequential consistency. ")
PROPS = {}
def p(id, workloads, note="", quick=25, thorough=420, **kw):
    PROPS[id] = dict(workloads=workloads, note=NOTE + note, quick=quick, thorough=thorough, **kw)
p("P01", ["ready"], "Oracle: readiness recomputed from the simulated kernel at every callback and after every poll.")
p("P02", ["ready"], "Oracle: model of registrations, wanted events and callbacks per descriptor.")
p("P03", ["timeout"], "Oracle: model of armed timeouts against simulated time.")
p("P04", ["actor"], "Oracle: model of pending timers against simulated time, with steps of the wall clock.")
p("P05", ["signals"], "Oracle: callbacks per signal never exceed the deliveries and equal them once settled; number, argument and registration of every callback; return codes; events_is_running per loop; descriptors that share a number with a signal stay registered.")
p("P06", ["tasks", "comix"], "Oracle: run counts, arguments, locals across yields, order.")
p("P07", ["sleep", "comix"], "Oracle: simulated monotonic time at both ends of every delay, due order, progress of others.")
p("P08", ["await", "comix", "pool"], "Oracle: each task's own return value by id.")
p("P09", ["gener", "comix"], "Oracle: sequence yielded against sequence received per generator.")
p("P10", ["group", "comix"], "Oracle: members' completion and values per group.")
p("P11", ["wgroup"], "Oracle: members' completion, effects and values per waitgroup.")
p("P12", ["pool"], "Oracle: start and finish counts, arguments, results and progress of every go() task.")
p("P13", ["work"], "Oracle: run counts, arguments, order, value and errno per job, progress of the waiting thread's other tasks.")
p("P14", ["thread"], "Oracle: value or exception of each thread function.")
p("P15", ["except", "uncaught"], "Oracle: step-by-step comparison of random nestings of try, catch, catch_any, catch_if, finally, throw, rethrow, panic, raised signals and hardware faults with a reference interpreter; name and origin in each handler; several programs interleave on tasks and worker threads. For an exception nobody catches: all its blocks' steps first, then one report with name and origin, the termination function once and exit code 1.")
p("P16", ["guards"], "Oracle: the same interpreter with guard sections, defer, deferring, fence and recovery; task, job and thread scopes run their deferred calls once, in reverse order, after the end.")
p("P17", ["stream", "fifo"], "Oracle: position-coded bytes per channel (content, order, counts, end of stream, buffer bounds), result of every call, kernel readiness against the time a waiting task is resumed, progress of a ticking task.")
p("P18", ["conn"], "Oracle: every client's connection served once or failed with the error of its cause, peer address, non-blocking descriptors, descriptor count at the end, listeners that still accept.")
p("P19", ["udp"], "Oracle: every datagram by number and pattern (content, length, at most once and in order unless the simulated network duplicates or reorders, none missing unless it loses), answers by asker, descriptor count.")
p("P20", ["fs"], "Oracle: model of every file: contents, length, offsets, mode and directory entries after each operation, result and error number of each call against the simulated system call, descriptor count, progress of a ticking task.")
p("P21", ["watch"], "Oracle: the sequence of changes made per directory against the sequence reported to its handler (kind, name, handler, directory), watches in place within a bounded time, none reported after removal, watch counts and descriptors at the end; watches end with their directory, and the program with its last watch.")
p("P22", ["spawn"], "Oracle: per child position-coded output (order, once, all before the exit callback), input, arguments and environment seen by the simulated program, exit status or signal, pids, exec_wait's limits, descriptor count and zombies at the end, progress within a bounded time.")
p("P23", ["rpmalloc"], "Oracle: address ranges of all live blocks (disjoint, aligned, inside the usable size), a pattern per block checked at every operation and at the end, zeroes, common prefixes, mapped memory bounded, null only when the system refused.")
p("P24", ["life", "loops", "start"], "Oracle: model of registrations and timers per loop, start and finish counts and results per task, then threads, descriptors and heap blocks left after the end against before the start; return codes against injected failures.")
p("P25", ["aside"], "Oracle: the simulated resolver's answer per name, checked again after waiting; entropy bytes; bytes read from and written to streamed programs by position and their exit status; progress of a ticking task; descriptors, threads and children left.")
p("P26", ["steady"], "Oracle: live heap blocks and bytes (less one record per task id and per generator) and open descriptors after each of twelve identical rounds; six rises in a row that a pause does not undo are a violation.")
p("P27", ["text"], "Oracle: small models of every array operation and text helper, per task; everything given to a task is compared again after others ran; memory of ended tasks.")
p("P28", ["own", "life"], "Oracle: each task's own record of its id, data, name and steps is compared at every point where it runs again; steps of a suspended task are counted against resumes; runs and cleanups of guarded tasks; data kept with descriptors.")
p("P29", ["osthr"], "Oracle: each thread's own record of code, end and slots, compared with what os_join, os_tls_get and destructors give; times of timed joins and sleeps.")
p("P30", ["life", "text", "spawn", "own", "wgroup"], "Oracle: the program's allocator marks each block: every block given back must be a live one of its own; no call goes past it to the bundled allocator; what is kept after the end is counted.")
NOT_YET = {"P%02d" % i: "no check built yet" for i in range(1, 30)}
