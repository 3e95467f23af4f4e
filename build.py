#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into /verif/.build (never writes to /repo).

The generated parser and lexer are treated as /opt/vp/build.sh treats them: taken from /repo while their grammar is
the one of the pinned commit, generated from the grammar with the project's own Makefile once it was edited.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SQLSIM_REPO", "/repo")
OUT = os.path.join(HERE, ".build")
P = "parser/"
GRAMMARS = {
    "bison_parser.y": ("9aeb9256a5466408e2d977aabf07710017eb274a60e37e54d80f2fb963b208b0", ("bison_parser.cpp", "bison_parser.h")),
    "flex_lexer.l": ("f1540175e92cdc7fb6368803c8f3adadaedf78aa9b1288ff3dae5a32f0872524", ("flex_lexer.cpp", "flex_lexer.h")),
}
LIB = "-std=c++17 -g1 -O1 -w -fno-omit-frame-pointer -fsanitize=address -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores".split()
SIM = "-std=c++17 -g1 -Wall".split()
SIM_SRC = {
    "core.cpp": ["-O2", "-fno-threadsafe-statics"],
    "main.cpp": ["-O1"],
    "gen_spec.cpp": ["-O1"],
    "sqlgen.cpp": ["-O1"],
    "spec.cpp": ["-O1"],
    "ops.cpp": ["-O1", "-fsanitize=address"],
    "host.cpp": ["-O1", "-frounding-math"],
}
WRAP = """malloc calloc realloc reallocarray free strdup strndup exit _exit abort pthread_mutex_lock pthread_mutex_trylock
pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire
__cxa_guard_release __cxa_guard_abort pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv
_ZNSt18condition_variable10notify_allEv sched_yield nanosleep clock_nanosleep usleep sleep
pthread_mutex_timedlock pthread_mutex_clocklock pthread_cond_clockwait pthread_rwlock_timedrdlock pthread_rwlock_timedwrlock
pthread_rwlock_clockrdlock pthread_rwlock_clockwrlock pthread_spin_lock sem_wait sem_post clock_gettime gettimeofday time clock
_ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv strcasecmp strncasecmp
aligned_alloc posix_memalign memalign
memcpy memmove memset __asan_memcpy __asan_memmove __asan_memset strcpy strncpy strcat strncat strlen strcmp strncmp memcmp
strstr strchr strrchr memchr vsnprintf snprintf sprintf write writev dprintf vdprintf
flockfile funlockfile ftrylockfile dup""".split()
LOCALES = [("de_DE", "UTF-8", "de_DE.UTF-8"), ("tr_TR", "UTF-8", "tr_TR.UTF-8"), ("tr_TR", "ISO-8859-9", "tr_TR.ISO-8859-9")]


def fail(why):  # not an answer about any property
    sys.stdout.flush()
    sys.stderr.write("build: " + why + "\n")
    sys.exit(2)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def write_if_changed(path, data):
    if os.path.isfile(path) and read(path) == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "wb") as f:
        f.write(data)
    os.replace(path + ".tmp", path)


def stage():
    want = {}
    src = os.path.join(REPO, "src")
    for d, _, names in os.walk(src):
        for n in names:
            if n.endswith((".cpp", ".h", ".hpp", ".cc", ".c", ".inc", ".y", ".l")) or n == "Makefile":
                rel = os.path.relpath(os.path.join(d, n), src)
                if rel.startswith(P + "conflict_test"):
                    continue
                want[rel] = read(os.path.join(d, n))
    for g, (pin, outs) in GRAMMARS.items():
        if P + g not in want:
            fail("src/%s is missing" % (P + g))
        if hashlib.sha256(want[P + g]).hexdigest() != pin or any(P + o not in want for o in outs):
            key = hashlib.sha256(want[P + g] + b"\0" + want[P + "Makefile"]).hexdigest()[:32]
            done = os.path.join(OUT, "gen", g + "." + key)
            if not os.path.isdir(done):
                work = os.path.join(OUT, "gen", "work." + g)
                shutil.rmtree(work, ignore_errors=True)
                os.makedirs(work)
                for n in (g, "Makefile"):
                    with open(os.path.join(work, n), "wb") as f:
                        f.write(want[P + n])
                r = subprocess.run(["make", "-C", work, outs[0]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                if r.returncode or not all(os.path.isfile(os.path.join(work, o)) for o in outs):
                    sys.stdout.buffer.write(r.stdout)
                    fail("could not generate %s" % outs[0])
                os.rename(work, done)
            for o in outs:
                want[P + o] = read(os.path.join(done, o))
    st = os.path.join(OUT, "stage", "src")
    have = set()
    for d, _, names in os.walk(st):
        for n in names:
            have.add(os.path.relpath(os.path.join(d, n), st))
    for rel in have - set(want):
        os.remove(os.path.join(st, rel))
    for rel, data in want.items():
        write_if_changed(os.path.join(st, rel), data)
    return want, st


ATOMIC = re.compile(rb"^(?!\s*;).*?\b(?:atomicrmw|cmpxchg)\s[^,]*?\bptr (%[-\w$.\"]+|@[-\w$.\"]+|getelementptr [^)]*\))", re.M)


# An opaque call at the start of every function of the library: the optimiser can no longer tell that a function only
# reads, so that it does not merge repeated calls which other compilers keep.
ENTRY = re.compile(rb"^define (?!linkonce|available_externally|weak)[^\n]*\{\n(?:[-\w$.\"]+:[^\n]*\n)?", re.M)


def compile_one(job):
    src, obj, cmd = job
    if os.path.isfile(obj):
        return 0, b""
    tmp = obj + ".tmp.%d.o" % os.getpid()
    if "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores" in cmd:
        # The coverage pass does not report read-modify-write instructions. Where there are any they get a call of their own.
        ll = tmp + ".ll"
        raw = tmp + ".raw.ll"
        r = subprocess.run(cmd + ["-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", src, "-o", raw], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode == 0:
            text, n = ENTRY.subn(lambda m: m.group(0) + b"  call void @sqlsim_enter()\n", read(raw))
            if n:
                with open(raw, "wb") as f:
                    f.write(text + b"\ndeclare void @sqlsim_enter() nounwind\n")
            r = subprocess.run([x for x in cmd if not x.startswith(("-std=", "-I", "-D"))] + ["-S", "-emit-llvm", raw, "-o", ll], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if os.path.isfile(raw):
            os.remove(raw)
        if r.returncode == 0:
            text = read(ll)
            text, n = ATOMIC.subn(lambda m: b"  call void @sqlsim_atomic(ptr " + m.group(1) + b")\n" + m.group(0), text)
            if n:
                with open(ll, "wb") as f:
                    f.write(text + b"\ndeclare void @sqlsim_atomic(ptr)\n")
            r = subprocess.run(["clang++", "-O1", "-w", "-fno-omit-frame-pointer", "-Xclang", "-disable-llvm-passes", "-c", ll, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if os.path.isfile(ll):
            os.remove(ll)
    else:
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode == 0:
        os.replace(tmp, obj)
    return r.returncode, r.stdout


def locale_job(l):
    name, cs, out = l
    dst = os.path.join(OUT, "loc", out)
    if os.path.isdir(dst):
        return
    os.makedirs(os.path.join(OUT, "loc"), exist_ok=True)
    tmp = dst + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    try:
        subprocess.run(["localedef", "--no-archive", "-c", "-i", name, "-f", cs, tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
        if os.path.isfile(os.path.join(tmp, "LC_CTYPE")):
            os.rename(tmp, dst)
    except Exception:
        pass


def build(quiet=True):
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        want, st = stage()
        hdr = hashlib.sha256()
        for rel in sorted(want):
            if rel.endswith((".h", ".hpp", ".inc")):
                hdr.update(rel.encode() + b"\0" + want[rel])
        simdir = os.path.join(HERE, "sim")
        simh = hashlib.sha256()
        for n in sorted(os.listdir(simdir)):
            if n.endswith(".h"):
                simh.update(n.encode() + b"\0" + read(os.path.join(simdir, n)))
        objdir = os.path.join(OUT, "obj")
        os.makedirs(objdir, exist_ok=True)
        jobs, libobjs, simobjs = [], [], []
        inc = ["-I" + st]

        def add(src, flags, key, lst):
            h = hashlib.sha256(b"3" + key + b"\0" + read(src) + b"\0" + " ".join(flags).encode()).hexdigest()[:24]
            o = os.path.join(objdir, os.path.basename(src).replace(".cpp", "") + "-" + h + ".o")
            lst.append(o)
            jobs.append((src, o, ["clang++"] + flags))

        for n, fl in SIM_SRC.items():
            key = simh.digest() + (hdr.digest() if n == "ops.cpp" else b"")
            add(os.path.join(simdir, n), SIM + fl + (inc if n == "ops.cpp" else []), key, simobjs)
        for rel in sorted(want):
            if rel.endswith((".cpp", ".cc", ".c")):
                add(os.path.join(st, rel), LIB + inc, rel.encode() + hdr.digest(), libobjs)
        # the long ones first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        ncpu = len(os.sched_getaffinity(0))
        with ThreadPoolExecutor(max_workers=max(2, ncpu)) as ex:
            locs = [ex.submit(locale_job, l) for l in LOCALES]
            res = list(ex.map(compile_one, jobs))
            for f in locs:
                f.result()
        for rc, out in res:
            if rc:
                sys.stdout.buffer.write(out[-6000:])
                fail("compilation failed")
        key = hashlib.sha256("\n".join(libobjs + simobjs).encode()).hexdigest()[:24]
        exe = os.path.join(OUT, "sqlsim-" + key)
        if not os.path.isfile(exe):
            cmd = ["clang++", "-fsanitize=address", "-Wl,-z,now"] + ["-Wl,--wrap=" + w for w in WRAP] + libobjs + simobjs + ["-o", exe + ".tmp", "-ldl", "-lpthread"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                sys.stdout.buffer.write(r.stdout[-6000:])
                fail("linking failed")
            os.replace(exe + ".tmp", exe)
        # keep what belongs to this build only
        keep = set(libobjs + simobjs)
        for n in os.listdir(objdir):
            p = os.path.join(objdir, n)
            if p not in keep and os.path.getmtime(p) < os.path.getmtime(exe) - 3600:
                os.remove(p)
        for n in os.listdir(OUT):
            p = os.path.join(OUT, n)
            if n.startswith("sqlsim-") and p != exe and os.path.getmtime(p) < os.path.getmtime(exe) - 3600:
                os.remove(p)
        return exe


if __name__ == "__main__":
    print(build())
