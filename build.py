#!/usr/bin/env python3
"""Builds the simulator and the library under test from a /repo working tree into a directory.

usage: build.py OUTDIR [REPO]        (prints the path of the runner)

The library sources are compiled with -fsanitize=thread only for the instrumentation calls it
inserts before every memory access and atomic operation: the runtime behind them is sim/core.c.
objcopy then points the system calls and libc services of library and workloads at the simulator."""
import concurrent.futures as cf
import glob, os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
LIB = ["rpmalloc", "future", "events", "except", "arrays", "async_io", "async_udp", "async_uds", "os_unix", "epoll"]

REDIRECT = """
malloc calloc
open openat creat close read write pread pwrite readv writev lseek ftruncate fsync dup dup2 dup3 fcntl ioctl isatty
pipe pipe2 eventfd epoll_create epoll_create1 epoll_ctl epoll_wait epoll_pwait poll sendfile
socket socketpair bind listen accept accept4 connect shutdown send recv sendto recvfrom getsockname getpeername getsockopt setsockopt
stat lstat fstat access chmod mkdir rmdir unlink remove rename mkfifo readlink chdir getcwd utimensat opendir readdir closedir
inotify_init inotify_init1 inotify_add_watch inotify_rm_watch
vfprintf fopen fdopen fclose fileno flockfile funlockfile popen pclose system
clock_gettime gettimeofday time nanosleep usleep sleep sched_yield sched_getaffinity sysconf
pthread_create pthread_exit pthread_join pthread_tryjoin_np pthread_timedjoin_np pthread_detach pthread_self pthread_setaffinity_np
pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific pthread_sigmask pthread_kill pthread_once
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
sigaction signal sigprocmask raise kill sigaltstack siglongjmp
vfork execve execv execvp execvpe exit _exit waitpid waitid getpid setsid atexit abort
getaddrinfo freeaddrinfo getnameinfo gethostbyname gethostbyname_r gethostname getentropy getrandom rand srand
backtrace backtrace_symbols prctl
mmap munmap madvise mprotect
"""
ALIASES = {"free": "sim_cfree", "realloc": "sim_crealloc", "fork": "sim_vfork", "__vfork": "sim_vfork", "_Exit": "sim__exit", "__assert_fail": "sim_assert_fail",
           "__sigsetjmp": "sim_sigsetjmp", "longjmp": "sim_siglongjmp", "_longjmp": "sim_siglongjmp",
           "open64": "sim_open", "fopen64": "sim_fopen", "stat64": "sim_stat", "fstat64": "sim_fstat", "lstat64": "sim_lstat",
           "lseek64": "sim_lseek", "sendfile64": "sim_sendfile", "readdir64": "sim_readdir", "mmap64": "sim_mmap",
           "pread64": "sim_pread", "pwrite64": "sim_pwrite", "ftruncate64": "sim_ftruncate", "fcntl64": "sim_fcntl",
           "creat64": "sim_creat", "random": "sim_rand", "pthread_yield": "sim_sched_yield"}
RP = {"rpmalloc": "sim_rpmalloc", "rpfree": "sim_rpfree", "rpcalloc": "sim_rpcalloc", "rprealloc": "sim_rprealloc",
      "rp_malloc": "sim_rpmalloc", "rp_free": "sim_rpfree", "rp_calloc": "sim_rpcalloc", "rp_realloc": "sim_rprealloc",
      "rpmalloc_usable_size": "sim_usable"}

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise SystemExit("build failed: %s\n%s" % (" ".join(cmd), p.stdout))
    return p.stdout

def build(out, repo="/repo", only=None):
    os.makedirs(out, exist_ok=True)
    src = os.path.join(repo, "src")
    notls = os.path.join(HERE, "sim", "notls.h")
    sysinfo = os.path.join(out, "sysinfo.c")
    sh([sys.executable, os.path.join(HERE, "sim", "sysinfo.py"), os.path.join(src, "async_tls.c"), sysinfo])
    base = ["-g", "-O0", "-fsanitize=thread", "-no-pie", "-fno-pie", "-w", "-fno-strict-aliasing", "-fno-stack-protector",
            "-D", "USE_DEBUG", "-D", "ENABLE_ASSERTS", "-include", notls, "-I", src, "-I", os.path.join(repo, "include"), "-I", os.path.join(HERE, "sim")]
    redir = os.path.join(out, "redir.txt"); redir_rp = os.path.join(out, "redir_rp.txt")
    m = {n: "sim_" + n for n in REDIRECT.split()}
    defsym = {}
    def alias(k, v):            # objcopy wants distinct targets: the linker makes them one symbol
        defsym["simalias_" + k] = v
        return "simalias_" + k
    for k, v in ALIASES.items(): m[k] = alias(k, v)
    with open(redir_rp, "w") as f:
        for k, v in m.items():
            if k != v: f.write("%s %s\n" % (k, v))
    jobs = []
    def obj(n): return os.path.join(out, n + ".o")
    for n in ["core", "kern", "fs", "proc", "alloc", "main"]:
        jobs.append((["gcc", "-O2", "-g", "-w", "-fno-stack-protector", "-no-pie", "-fno-pie", "-fcf-protection=none", "-c", os.path.join(HERE, "sim", n + ".c"), "-o", obj("sim_" + n)], None))
    libobjs = []
    for n in LIB + ["sysinfo"]:
        s = sysinfo if n == "sysinfo" else os.path.join(src, n + ".c")
        o = obj("lib_" + n); libobjs.append(o)
        jobs.append((["gcc", "-std=gnu90", *base, "-c", s, "-o", o], o))
    wlobjs = []; names = []
    for s in sorted(glob.glob(os.path.join(HERE, "work", "wl_*.c"))):
        n = os.path.splitext(os.path.basename(s))[0]
        if only and n not in only: continue
        o = obj(n); wlobjs.append(o)
        jobs.append((["gcc", "-std=gnu99", *base, "-c", s, "-o", o], o))
        names += re.findall(r"^SIM_WORKLOAD\((\w+)", open(s).read(), re.M)
    tab = os.path.join(out, "table.c")
    with open(tab, "w") as f:
        f.write('#include "sim.h"\n' + "".join("extern const struct sim_wl simwl_%s;\n" % n for n in names))
        f.write("const struct sim_wl *const sim_workloads[] = {%s 0};\n" % "".join("&simwl_%s, " % n for n in names))
    jobs.append((["gcc", "-O1", "-w", "-I", os.path.join(HERE, "sim"), "-no-pie", "-fno-pie", "-c", tab, "-o", obj("table")], None))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: sh(j[0]), jobs))
    # the bundled allocator's entry points, as the library and the workloads use them
    defined = set(l.split()[-1] for l in sh(["nm", "--defined-only", "-g", obj("lib_rpmalloc")]).splitlines() if " T " in l)
    rp = {k: alias(k, v) for k, v in RP.items()}
    for k in defined:
        if k not in rp and re.match(r"(rp|malloc_)", k): rp[k] = "simrp_" + k
    with open(redir, "w") as f:
        for k, v in {**m, **rp}.items():
            if k != v: f.write("%s %s\n" % (k, v))
    def oc(o):
        isrp = os.path.basename(o) in ("lib_rpmalloc.o", "wl_rpmalloc.o")
        sh(["objcopy", "--redefine-syms=" + (redir_rp if isrp else redir), o])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(oc, libobjs + wlobjs))
    # stubs for allocator entry points the library calls besides malloc and free
    und = set()
    for o in libobjs + wlobjs:
        for l in sh(["nm", "-u", o]).splitlines():
            s = l.split()[-1]
            if s.startswith("simrp_"): und.add(s)
    stub = os.path.join(out, "stubs.c")
    with open(stub, "w") as f:
        for s in sorted(und): f.write("long %s(void) { return 0; }\n" % s)
    sh(["gcc", "-w", "-O1", "-no-pie", "-fno-pie", "-c", stub, "-o", obj("stubs")])
    exe = os.path.join(out, "simrun")
    sh(["gcc", "-no-pie", "-rdynamic", *["-Wl,--defsym=%s=%s" % kv for kv in sorted(defsym.items())], "-o", exe, *[obj("sim_" + n) for n in ["core", "kern", "fs", "proc", "alloc", "main"]], obj("table"), obj("stubs"), *libobjs, *wlobjs, "-lpthread", "-ldl", "-lm"])
    return exe

if __name__ == "__main__":
    out = sys.argv[1]; repo = sys.argv[2] if len(sys.argv) > 2 else "/repo"
    print(build(out, repo))
