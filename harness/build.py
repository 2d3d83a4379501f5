"""Builds simulator executables from /repo's working tree."""
import os
import shutil
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor

import catalog

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")
CXX = "g++-13"
V3 = ["-march=x86-64-v3"]
FB = ["-DVIR_DISABLE_STDX_SIMD"]
MODES = {
    "o2": ["-O2"] + V3,
    "os": ["-Os"] + V3,
    "sse": ["-O2"],
    "fb": ["-O2"] + V3 + FB,
    "pc5": ["-O2", "-DVIR_CHECK_PRECONDITIONS=5"] + V3,
    "fb5": ["-O2", "-DVIR_CHECK_PRECONDITIONS=5"] + V3 + FB,
    "o3": ["-O3"] + V3,
    "o1": ["-O1"] + V3,
    "fbos": ["-Os"] + FB,
    "fbsse": ["-O2"] + FB,
    "pc4": ["-O2", "-DVIR_CHECK_PRECONDITIONS=4"] + V3,
    "pc2": ["-O2", "-DVIR_CHECK_PRECONDITIONS=2"] + V3,
    "fb4": ["-O2", "-DVIR_CHECK_PRECONDITIONS=4"] + V3 + FB,
    "v4": ["-O2", "-march=x86-64-v4"],
    "hg": ["-O2"] + V3,   # ranges of more than 2^32 elements, sim/huge.h
}


def runnable(mode):
    """AVX-512 needs the processor, clang modes the compiler"""
    if mode == "v4":
        try:
            fl = next(l for l in open("/proc/cpuinfo") if l.startswith("flags")).split()
        except (OSError, StopIteration):
            return False
        return all("avx512" + x in fl for x in ("f", "bw", "cd", "dq", "vl"))
    if mode in CLANG_MODES:
        return shutil.which(CLANG) is not None
    return True



CLANG = "clang++-18"
CLANG_MODES = {   # clang instruments accesses of up to 16 bytes, so no wider registers
    "cl": ["-O2", "-march=x86-64-v2"],
    "clfb": ["-O2", "-march=x86-64-v2"] + FB,
}
MODES.update(CLANG_MODES)
WRAP = ("memcpy memmove memset memcmp malloc calloc realloc aligned_alloc pthread_mutex_lock pthread_mutex_trylock "
        "pthread_mutex_unlock abort vfprintf __vfprintf_chk write fprintf __fprintf_chk printf puts fputs fwrite").split()
TSAN = ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"]
CLANG_TSAN = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"]


def compiler(mode):
    if mode in CLANG_MODES:
        return [CLANG, "-std=gnu++23", "-U_FORTIFY_SOURCE", "-w"] + MODES[mode] + CLANG_TSAN
    return [CXX, "-std=gnu++23", "-U_FORTIFY_SOURCE", "-w"] + MODES[mode] + (TSAN if mode != "hg" else [])


class BuildError(Exception):
    pass


def sh(cmd, what, timeout=600):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError("%s failed (%d): %s\n%s" % (what, p.returncode, " ".join(cmd), p.stdout[-6000:]))


def tu_text(ops):
    body = "\n  ".join(o.code for o in ops)
    return ('#include "huge.h"\n%s\nextern "C" void SIM_REG_FN();\nextern "C" void SIM_REG_FN()\n{\n  %s\n}\n'
            % (catalog.preamble(), body))


def build(outdir, worlds, repo="/repo", jobs=8, tus=None):
    """worlds: {mode: [Op]}.  Returns {mode: exe}, seconds, [(mode, op, error)] of entry points that do not compile."""
    os.makedirs(outdir, exist_ok=True)
    tasks, objs, failed, dropped = [], {}, [], []
    t0 = time.time()

    def core():
        sh([CXX, "-std=gnu++20", "-O1", "-fPIC", "-shared", "-fno-threadsafe-statics", "-I", SIM, os.path.join(SIM, "core.cc"), "-o", os.path.join(outdir, "libsimcore.so")], "simulator core")

    def workload(cmd, mode, part, obj):
        try:
            sh(cmd, "workload")
        except BuildError as e:
            failed.append((mode, part, obj, cmd, e))

    tasks.append((999, core))
    tasks.append((0, lambda: sh([CXX, "-O1", "-c", os.path.join(SIM, "main.cc"), "-o", os.path.join(outdir, "main.o")], "main")))
    total = sum(o.cost for ops in worlds.values() for o in ops)
    for mode, ops in worlds.items():
        share = sum(o.cost for o in ops) / max(total, 1e-9)
        k = max(1, min(len(ops), round((tus or 2 * jobs) * share)))
        parts = [[] for _ in range(k)]
        for i, o in enumerate(ops):
            parts[i % k].append(o)
        objs[mode] = []
        reg = os.path.join(outdir, "%s_reg.cc" % mode)
        names = ["sim_reg_%d" % i for i in range(k)]
        with open(reg, "w") as f:
            f.write("".join('extern "C" void %s();\n' % n for n in names))
            f.write('extern "C" void sim_register_all() { %s }\n' % " ".join(n + "();" for n in names))
        ro = reg[:-3] + ".o"
        objs[mode].append(ro)
        tasks.append((0, lambda reg=reg, ro=ro: sh([CXX, "-O1", "-c", reg, "-o", ro], "registry")))
        for i, part in enumerate(parts):
            src = os.path.join(outdir, "%s_%d.cc" % (mode, i))
            obj = src[:-3] + ".o"
            with open(src, "w") as f:
                f.write(tu_text(part))
            objs[mode].append(obj)
            cmd = compiler(mode) + ["-DSIM_REG_FN=sim_reg_%d" % i, "-I", repo, "-I", SIM, "-c", src, "-o", obj]
            tasks.append((sum(o.cost for o in part), lambda cmd=cmd, mode=mode, part=part, obj=obj: workload(cmd, mode, part, obj)))
    tasks.sort(key=lambda t: -t[0])
    with ThreadPoolExecutor(jobs) as ex:
        for f in [ex.submit(t[1]) for t in tasks]:
            f.result()
    # a unit that does not compile is split into its entry points; those that still do not compile are left out
    # (the caller reports them: without a violation elsewhere there is no answer)
    for mode, part, obj, cmd, err in failed:
        src = obj[:-2] + ".cc"
        reg = [a for a in cmd if a.startswith("-DSIM_REG_FN=")][0].split("=")[1]
        good = []

        def single(i):
            s1 = "%s_s%d.cc" % (obj[:-2], i)
            with open(s1, "w") as f:
                f.write(tu_text([part[i]]))
            try:
                sh([s1 if a == src else "-DSIM_REG_FN=%s_s%d" % (reg, i) if a.startswith("-DSIM_REG_FN=") else s1[:-3] + ".o" if a == obj else a for a in cmd], "workload")
                good.append(i)
            except BuildError as e:
                dropped.append((mode, part[i], str(e)))
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(single, range(len(part))))
        good.sort()
        with open(src, "w") as f:
            f.write("".join('extern "C" void %s_s%d();\n' % (reg, i) for i in good))
            f.write('extern "C" void %s() { %s }\n' % (reg, " ".join("%s_s%d();" % (reg, i) for i in good)))
        sh([CXX, "-O1", "-c", src, "-o", obj], "registry")
        objs[mode] += ["%s_s%d.o" % (obj[:-2], i) for i in good]
    if dropped and len(dropped) == sum(len(o) for o in worlds.values()):
        raise BuildError(dropped[0][2])
    exes = {}

    def link(mode):
        exe = os.path.join(outdir, "sim-" + mode)
        sh([CXX, "-rdynamic", os.path.join(outdir, "main.o")] + objs[mode] + ["-Wl,--wrap=" + w for w in WRAP] + ["-L", outdir, "-lsimcore", "-Wl,-rpath,$ORIGIN", "-o", exe], "link")
        exes[mode] = exe
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(link, list(worlds)))
    return exes, time.time() - t0, dropped
