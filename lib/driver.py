"""Build and run machinery shared by all checks."""
import os, sys, re, json, time, glob, hashlib, shutil, signal, subprocess, tempfile, struct
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NPROC = max(2, min(8, os.cpu_count() or 2))
CLEAN_ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/tmp",
             "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TERM": "dumb"}
SAN = {"ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:"
                       "strict_string_checks=1:detect_invalid_pointer_pairs=0:allocator_may_return_null=0:"
                       "max_allocation_size_mb=4000:handle_segv=1:handle_sigfpe=1:handle_abort=1:symbolize=1:"
                       "alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:malloc_context_size=12:quarantine_size_mb=32",
       "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
       "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:second_deadlock_stack=1:symbolize=1"}
GSAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]

VARIANTS = {
    "d":     dict(cc="/usr/bin/g++", flags=["-O1", "-g1"] + GSAN, single=False),
    "f":     dict(cc="/usr/bin/g++", flags=["-O1", "-g1"] + GSAN, single=True),
    "cd":    dict(cc="/usr/bin/clang++", flags=["-O1", "-g1"] + GSAN, single=False),
    "cf":    dict(cc="/usr/bin/clang++", flags=["-O1", "-g1"] + GSAN, single=True),
    "fuzz":  dict(cc="/usr/bin/clang++", flags=["-O1", "-g1", "-fsanitize=fuzzer-no-link"] + GSAN, single=False,
                  hflags=["-DVF_FUZZ"], lflags=["-fsanitize=fuzzer"]),
    "o2":    dict(cc="/usr/bin/g++", flags=["-O2", "-g1"], single=False),
    "o2f":   dict(cc="/usr/bin/g++", flags=["-O2", "-g1"], single=True),
    "tsan":  dict(cc="/usr/bin/clang++", flags=["-O1", "-g1", "-fsanitize=thread"], single=False),
}

BASE_VARIANTS = ("d", "o2")     # the default configuration; the others widen the reach when they build

class CheckError(Exception):
    pass

def sources(kind):
    out = []
    for base in (["src"] if kind == "lib" else ["src", "cli"]):
        for ext in ("*.cpp", "*.cc", "*.cxx", "*.c", "*.hpp", "*.h", "*.hh", "*.inl", "*.ipp"):
            out += glob.glob(os.path.join(REPO, base, "**", ext), recursive=True)
    out += glob.glob(os.path.join(REPO, "*.h")) + glob.glob(os.path.join(REPO, "config.hpp.in"))
    return sorted(set(out))

def literal_counts():
    """Numeric literals (and narrow integer types, as their limits) in the sources: value -> occurrences."""
    ints, fl = {}, {}
    def add(d, v):
        d[v] = d.get(v, 0) + 1
    for p in sources("all"):
        try:
            t = open(p, errors="replace").read()
        except OSError:
            continue
        t = re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r'"(\\.|[^"\\\n])*"', ' "" ', t)
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+\.?\d*(?:[eE][-+]?\d+)?)[uUlLfF]*", t):
            s = m.group(1)
            try:
                v = int(s, 0) if re.fullmatch(r"0[xX][0-9a-fA-F]+|[1-9]\d*|0", s) else float(s)
            except ValueError:
                continue
            if isinstance(v, int):
                if 3 <= v <= 2000000:
                    add(ints, v)
            else:
                add(fl, v)
        for m in re.finditer(r"1\w*\s*<<\s*(\d+)", t):
            if int(m.group(1)) <= 20:
                add(ints, 1 << int(m.group(1)))
        for m in re.finditer(r"\b(?:int|unsigned|short|long|char)\s+\w+\s*:\s*(\d+)", t):     # bit fields
            if 2 <= int(m.group(1)) <= 17:
                add(ints, 1 << int(m.group(1)))
        for pat, vals in ((r"\b(?:unsigned\s+short|uint16_t|uint_least16_t)\b", (65536,)), (r"\b(?:short|int16_t)\b", (32768,)),
                          (r"\b(?:unsigned\s+char|uint8_t)\b", (256,)), (r"\b(?:signed\s+char|int8_t)\b", (128,)), (r"\b(?:USHRT_MAX|UINT16_MAX)\b", (65536,)), (r"\b(?:SHRT_MAX|INT16_MAX)\b", (32768,)),
                          (r"\b(?:UCHAR_MAX|UINT8_MAX)\b", (256,)), (r"\b(?:CHAR_MAX|SCHAR_MAX|INT8_MAX)\b", (128,)), (r"\bBUFSIZ\b", (8192,)), (r"\bPATH_MAX\b", (4096,)), (r"\b(?:NAME_MAX|FILENAME_MAX)\b", (256,)),
                          (r"\bchar\s+\w+\s*[=;,){]", (128,))):
            for m in re.finditer(pat, t):
                for v in vals:
                    add(ints, v)
    return ints, fl

BASE_LITERALS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "base_literals.json")
def literal_env():
    """What the generators straddle: literals of the tree under test, and those it has more often than the tree this was built for."""
    ints, fl = literal_counts()
    try:
        b = json.load(open(BASE_LITERALS))
    except (OSError, ValueError):
        b = {"ints": {}, "floats": {}}
    ni = sorted(v for v, n in ints.items() if n > b["ints"].get(str(v), 0))
    nf = sorted(v for v, n in fl.items() if n > b["floats"].get(repr(v), 0))
    return {"ONEX_LITS": " ".join(str(v) for v in sorted(ints) if v <= 20000)[:4000], "ONEX_FLITS": " ".join(map(repr, sorted(fl)[:200])),
            "ONEX_NEWLITS": " ".join(map(str, ni[:40])), "ONEX_NEWFLITS": " ".join(map(repr, nf[:40]))}

def fhash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]

def run(cmd, **kw):
    return subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)

def prune(root, keep=60):
    try:
        ds = [os.path.join(root, d) for d in os.listdir(root)]
        ds = sorted((d for d in ds if os.path.isdir(d)), key=os.path.getmtime)
        for d in ds[:-keep]:
            if time.time() - os.path.getmtime(d) > 7200:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass

def cached(key, make):
    """Content-keyed build directory; the key covers every input, so a change in the tree is a miss."""
    root = os.path.join(VERIF, "build")
    os.makedirs(root, exist_ok=True)
    final = os.path.join(root, key)
    if os.path.isdir(final):
        os.utime(final)
        return final
    prune(root)
    tmp = tempfile.mkdtemp(prefix="tmp.", dir=root)
    try:
        make(tmp)
        try:
            os.rename(tmp, final)
        except OSError:
            if not os.path.isdir(final):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return final

def compile_all(jobs):
    """jobs: list of (cmd list, label)"""
    def one(j):
        r = run(j[0], env=CLEAN_ENV)
        return j[1], r.returncode, r.stdout.decode(errors="replace")
    with ThreadPoolExecutor(NPROC) as ex:
        for label, rc, out in ex.map(one, jobs):
            if rc:
                raise CheckError("compiling %s failed:\n%s" % (label, out[-6000:]))

def write_config(d, single):
    # what CMake's configure_file makes of config.hpp.in
    try:
        t = open(os.path.join(REPO, "config.hpp.in")).read()
    except OSError:
        t = "#cmakedefine SINGLE_PRECISION\n"
    def rep(m):
        if m.group(1) == "SINGLE_PRECISION" and single:
            return "#define SINGLE_PRECISION"
        return "/* #undef %s */" % m.group(1)
    open(os.path.join(d, "config.hpp"), "w").write(re.sub(r"#cmakedefine\s+(\w+).*", rep, t))

def build_lib(vname, cli=False):
    v = VARIANTS[vname]
    srcs = sources("all" if cli else "lib")
    key = ("cli-" if cli else "lib-") + vname + "-" + fhash(srcs, json.dumps(v, sort_keys=True))
    def make(d):
        write_config(d, v["single"])
        jobs, objs = [], []
        for i, s in enumerate(x for x in srcs if x.endswith((".cpp", ".cc", ".cxx"))):
            if not cli and not s.startswith(os.path.join(REPO, "src") + os.sep):
                continue
            o = os.path.join(d, "o%d.o" % i)
            jobs.append(([v["cc"], "-std=c++11", "-w"] + v["flags"] + v.get("defs", []) +
                         ["-I", d, "-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "cli"), "-c", s, "-o", o], s))
            objs.append(o)
        compile_all(jobs)
        if cli:
            r = run([v["cc"]] + v["flags"] + objs + ["-lreadline", "-o", os.path.join(d, "onex")], env=CLEAN_ENV)
            if r.returncode:
                raise CheckError("linking the command line failed:\n" + r.stdout.decode(errors="replace")[-4000:])
        else:
            r = run(["/usr/bin/ar", "rcs", os.path.join(d, "libonex.a")] + objs)
            if r.returncode:
                raise CheckError("ar failed")
        for o in objs:
            os.unlink(o)
    return cached(key, make)

def build_harness(name, vname, extra=()):
    v = VARIANTS[vname]
    hd = os.path.join(VERIF, "harness")
    mine = [os.path.join(hd, name + ".cpp"), os.path.join(hd, "main.cpp")] + sorted(glob.glob(os.path.join(hd, "*.hpp")))
    key = "bin-%s-%s-%s" % (name, vname, fhash(mine + sources("lib"), json.dumps([v, list(extra)], sort_keys=True)))
    lib_box = {}
    def make(d):
        write_config(d, v["single"])
        inc = ["-I", d, "-I", os.path.join(REPO, "src"), "-I", hd]
        o = [os.path.join(d, "h.o"), os.path.join(d, "m.o")]
        base = [v["cc"], "-std=c++17", "-w"] + v["flags"] + v.get("hflags", []) + list(extra) + inc
        with ThreadPoolExecutor(2) as ex:
            fl = ex.submit(build_lib, vname)
            fh = ex.submit(compile_all, [(base + ["-c", mine[0], "-o", o[0]], mine[0]), (base + ["-c", mine[1], "-o", o[1]], mine[1])])
            lib_box["d"] = fl.result()
            fh.result()
        r = run([v["cc"]] + v["flags"] + v.get("lflags", []) + o + [os.path.join(lib_box["d"], "libonex.a"), "-o", os.path.join(d, "h")], env=CLEAN_ENV)
        if r.returncode:
            raise CheckError("linking %s failed:\n%s" % (name, r.stdout.decode(errors="replace")[-4000:]))
        for x in o:
            os.unlink(x)
    return os.path.join(cached(key, make), "h")

def crash_key(text):
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)", text)
    if m:
        return "crash:" + m.group(2)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
    if m:
        return "race:" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"runtime error: ([^\n]*)", text)
    if m:
        return "crash:ub:" + re.sub(r"-?\d+", "N", m.group(1))[:80]
    m = re.search(r"VF-VIOLATION key=(\S+)", text)
    if m:
        return m.group(1)
    m = re.search(r"Assertion '([^']*)' failed", text)
    if m:
        return "crash:assert"
    return "crash:abnormal-exit"

class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="onexv.")
        self.viol = []         # dicts key,msg,variant,case,harness
        self.evals = 0
        self.hashes = set()
        self.counters = {}
        self.samples = []
        self.rules = []
        self.stages = []
        self.env = dict(CLEAN_ENV, **SAN, **literal_env())
        self.env["TMPDIR"] = self.tmp
        self.deadline = self.t0 + float(os.environ.get("VERIF_DEADLINE", 820 if tier == "quick" else 4 * 3600))

    def add_counters(self, c):
        for k, v in c.items():
            if k.startswith("max_"):
                self.counters[k] = max(self.counters.get(k, 0), v)
            else:
                self.counters[k] = self.counters.get(k, 0) + v

    def violation(self, key, msg, **info):
        self.viol.append(dict(key=key, msg=msg, **info))

    def built(self, label, variant, make):
        """A tree that builds as usual need not build in single precision or with the other compiler."""
        try:
            return make()
        except CheckError as e:
            if variant in BASE_VARIANTS:
                raise
            self.stages.append(dict(stage=label, skipped="does not build: " + str(e)[-600:]))
            return None

    # ---- C++ case harness, sharded over the cores
    def cases(self, harness, variant, n, extra=(), env=None, watchdog=60, label=None, nshards=NPROC, first=0):
        label = label or (harness + "/" + variant)
        exe = self.built(label, variant, lambda: build_harness(harness, variant, extra))
        if exe is None:
            return
        e = dict(self.env); e.update(env or {})
        t = time.time()
        def shard(w):
            frm, crashes = w + first, 0
            while True:
                tmp = os.path.join(self.tmp, "%s.%s.%d" % (harness, variant, w))
                out = tmp + ".out"
                shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp, exist_ok=True)
                for x in (out, out + ".status", out + ".hash"):
                    if os.path.exists(x):
                        os.unlink(x)
                cmd = [exe, "--seed", str(self.seed), "--from", str(frm), "--to", str(n + first), "--step", str(nshards),
                       "--tmp", tmp, "--out", out, "--tier", self.tier, "--watchdog", str(watchdog)]
                rc, log, st, case = self.exec_case(cmd, out, e)
                if rc == 0 and st == "DONE":
                    self.collect(out, label, variant, harness)
                    return
                if case is None:
                    raise CheckError("%s did not start (exit %s):\n%s" % (label, rc, log[-3000:]))
                if rc in (90, 91):
                    raise CheckError("%s: harness I/O failure\n%s" % (label, log[-2000:]))
                # alone, once more, before believing a crash or hang
                single = list(cmd); single[single.index("--from") + 1] = str(case); single[single.index("--to") + 1] = str(case + 1)
                single[single.index("--watchdog") + 1] = str(watchdog * 2)
                shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp, exist_ok=True)
                if os.path.exists(out): os.unlink(out)
                rc2, log2, st2, case2 = self.exec_case(single, out, e)
                if rc2 == 0 and st2 == "DONE":
                    self.collect(out, label, variant, harness)
                    if rc == 97 or rc == -signal.SIGKILL:
                        self.counters["inconclusive_retries"] = self.counters.get("inconclusive_retries", 0) + 1
                    else:
                        # depends on what ran before in the same process: report with the range
                        self.violation(crash_key(log), log[-3500:], variant=variant, case=case, harness=harness,
                                       cmd=cmd, note="only after the preceding cases of the shard")
                        return
                elif rc2 == 97 or rc2 == -signal.SIGKILL:
                    self.violation("hang" if rc2 == 97 else "killed", "case %d used more than %d s of processor time or was killed" % (case, watchdog * 2),
                                   variant=variant, case=case, harness=harness, cmd=single)
                else:
                    if rc2 in (90, 91):
                        raise CheckError("%s: harness I/O failure\n%s" % (label, log2[-2000:]))
                    self.violation(crash_key(log2), log2[-3500:], variant=variant, case=case, harness=harness, cmd=single)
                crashes += 1
                frm = case + nshards
                if crashes >= 2 or frm >= n + first:
                    return
        with ThreadPoolExecutor(nshards) as ex:
            list(ex.map(shard, range(min(nshards, n))))
        self.stages.append(dict(stage=label, cases=n, wall_s=round(time.time() - t, 2)))

    def exec_case(self, cmd, out, env):
        left = self.deadline - time.time()
        if left <= 1:
            raise CheckError("time budget used up (inconclusive)")
        lg = out + ".log"
        with open(lg, "wb") as f:
            try:
                p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=f, env=env, start_new_session=True)
                rc = p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL); p.wait()
                raise CheckError("time budget used up (inconclusive): " + " ".join(cmd))
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        log = open(lg, "rb").read()[-20000:].decode(errors="replace")
        st, case = None, None
        try:
            a = open(out + ".status").read().split()
            st, case = a[0], int(a[1])
        except (OSError, IndexError, ValueError):
            pass
        return rc, log, st, case

    def collect(self, out, label, variant, harness):
        r = json.load(open(out))
        self.evals += r["evals"]
        self.add_counters(r["counters"])
        if r["rule"] not in self.rules:
            self.rules.append(r["rule"])
        for s in r["samples"]:
            if len(self.samples) < 6:
                self.samples.append("[%s] %s" % (label, s))
        b = open(out + ".hash", "rb").read()
        for i in range(0, len(b), 8):
            self.hashes.add((variant, b[i:i + 8]))
        for v in r["violations"]:
            self.violation(v["key"], v["msg"], variant=variant, case=v["case"], harness=harness)

    # ---- the same cases under memcheck, which reports every use of an uninitialised value
    def memcheck(self, harness, variant, n, nshards=NPROC):
        exe = self.built(harness + "/memcheck", variant, lambda: build_harness(harness, variant))
        if exe is None:
            return
        t = time.time()
        def shard(w):
            tmp = os.path.join(self.tmp, "vg.%s.%d" % (variant, w)); os.makedirs(tmp)
            out, lg = tmp + ".out", tmp + ".vg"
            cmd = ["valgrind", "--tool=memcheck", "--leak-check=no", "--error-limit=no", "--num-callers=12", "--log-file=" + lg, exe,
                   "--seed", str(self.seed), "--from", str(w), "--to", str(n), "--step", str(nshards), "--tmp", tmp, "--out", out,
                   "--tier", self.tier, "--watchdog", "1500"]
            rc, log, st, case = self.exec_case(cmd, out, self.env)
            text = open(lg, errors="replace").read() if os.path.exists(lg) else ""
            kinds = r"uninitialised|Invalid (read|write|free)|Mismatched free|overlap|unaddressable"
            blocks = [b for b in re.split(r"==\d+== \n", text) if re.search(kinds, b)]
            if blocks:
                b = re.sub(r"==\d+== ?", "", blocks[0])
                self.violation("memcheck", "memcheck, cases %d.. step %d: %d reports, first:\n%s" % (w, nshards, len(blocks), b[:1500]),
                               variant=variant, case=w, harness=harness, cmd=cmd)
            elif rc != 0 or st != "DONE":
                raise CheckError("memcheck run of %s failed (exit %s): %s %s" % (harness, rc, log[-1500:], text[-1500:]))
            if os.path.exists(out):
                self.collect(out, harness + "/memcheck", "vg" + variant, harness)
        with ThreadPoolExecutor(nshards) as ex:
            list(ex.map(shard, range(min(nshards, n))))
        self.stages.append(dict(stage=harness + "/" + variant + "/memcheck", cases=n, wall_s=round(time.time() - t, 2)))

    # ---- the race detector: only when the library starts threads of its own (a tree without threads has no races to look for)
    def races(self, harness, n):
        lib = os.path.join(build_lib("d"), "libonex.a")
        sym = run(["/usr/bin/nm", "-u", lib], env=CLEAN_ENV).stdout.decode(errors="replace")
        if not re.search(r"\b(pthread_create|thrd_create|_ZNSt6thread\w*)\b", sym):
            self.stages.append(dict(stage=harness + "/tsan", skipped="the library starts no threads"))
            self.counters.setdefault("libraries_with_threads", 0)
            return
        self.counters["libraries_with_threads"] = 1
        exe = self.built(harness + "/tsan", "tsan", lambda: build_harness(harness, "tsan"))
        if exe is None:
            return
        r = run([exe, "--probe"], env=self.env)     # refuses to start where the address space cannot be laid out
        if b"ThreadSanitizer: unexpected memory mapping" in r.stdout or b"FATAL: ThreadSanitizer" in r.stdout:
            self.stages.append(dict(stage=harness + "/tsan", skipped="ThreadSanitizer cannot run here"))
            return
        self.cases(harness, "tsan", n, watchdog=240, label=harness + "/tsan")

    # ---- libFuzzer, bounded by executions
    def fuzz(self, harness, runs, max_len=512, jobs=NPROC, seed_inputs=()):
        exe = self.built(harness + "/fuzz", "fuzz", lambda: build_harness(harness, "fuzz"))
        if exe is None:
            return
        t = time.time()
        def job(w):
            d = os.path.join(self.tmp, "fuzz%d" % w); c = os.path.join(d, "corpus"); os.makedirs(c)
            for i, b in enumerate(seed_inputs):
                open(os.path.join(c, "s%d" % i), "wb").write(b)
            e = dict(self.env, VF_TMP=d)
            cmd = [exe, "-runs=%d" % runs, "-seed=%d" % (self.seed * 1000 + w + 1), "-max_len=%d" % max_len, "-len_control=20",
                   "-use_value_profile=1", "-rss_limit_mb=3500", "-timeout=60", "-artifact_prefix=" + d + "/", "-print_final_stats=1",
                   "-detect_leaks=0", c]
            left = self.deadline - time.time()
            lg = d + ".log"
            with open(lg, "wb") as f:
                p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=f, stderr=f, env=e, cwd=d, start_new_session=True)
                try:
                    rc = p.wait(timeout=max(1, left))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL); p.wait()
                    raise CheckError("fuzzing exceeded the time budget (inconclusive)")
            log = open(lg, "rb").read()[-30000:].decode(errors="replace")
            m = re.search(r"number_of_executed_units:\s*(\d+)", log)
            cov = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", log)
            res = dict(execs=int(m.group(1)) if m else 0, cov=int(cov[-1][0]) if cov else 0, ft=int(cov[-1][1]) if cov else 0, corp=int(cov[-1][2]) if cov else 0)
            if rc != 0:
                art = [a for a in glob.glob(d + "/*") if os.path.basename(a).split("-")[0] in ("crash", "timeout", "oom", "slow", "leak") and not os.path.basename(a).startswith("slow")]
                if not art:
                    raise CheckError("fuzzer failed without an artifact (exit %d):\n%s" % (rc, log[-3000:]))
                # confirm alone
                e2 = dict(e)
                r2 = run([exe, "-timeout=120", "-detect_leaks=0", "-rss_limit_mb=3500", art[0]], env=e2)
                txt = r2.stdout.decode(errors="replace")
                if r2.returncode != 0 or not os.path.basename(art[0]).startswith(("timeout", "oom")):
                    key = crash_key(txt if r2.returncode else log)
                    if "timeout" in os.path.basename(art[0]): key = "hang"
                    self.violation(key, (txt if r2.returncode else log)[-3500:], variant="fuzz", harness=harness, case=-1,
                                   input_hex=open(art[0], "rb").read().hex(), cmd=[exe, art[0]])
            return res
        with ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(job, range(jobs)))
        n = sum(r["execs"] for r in rs)
        self.evals += n
        self.add_counters(dict(fuzz_executions=n, max_fuzz_edges=max(r["cov"] for r in rs), max_fuzz_features=max(r["ft"] for r in rs), fuzz_corpus=sum(r["corp"] for r in rs)))
        for w, r in enumerate(rs):
            for i in range(r["corp"]):
                self.hashes.add(("fuzz", w, i))
        self.stages.append(dict(stage=harness + "/fuzz", executions=n, wall_s=round(time.time() - t, 2)))

    # ---- verdict
    def known(self):
        out = []
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) match=(.*?) :: (.*)$", line.strip())
                if m and m.group(1) == self.prop:
                    out.append(dict(key=m.group(2), match=m.group(3), text=m.group(4)))
        return out

    def finish(self, level, assumptions, exhaustive=None, extra_cov=None):
        known = self.known()
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        new = [v for v in self.viol if not any(k["key"] == v["key"] and k["match"] in v["msg"] for k in known)]
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.hashes), rule=" | ".join(self.rules),
                   samples=self.samples or ["(none)"], observed=self.counters, stages=self.stages)
        if extra_cov:
            cov.update(extra_cov)
        if exhaustive is not None:
            cov["exhaustive"] = exhaustive
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(new))
        ed = os.path.join(VERIF, "evidence")
        os.makedirs(ed, exist_ok=True)
        tmp = os.path.join(ed, ".%s.%d.tmp" % (self.prop, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(ed, self.prop + ".json"))
        if not new and (self.evals == 0 or not self.hashes):
            print("check %s observed nothing" % self.prop)
            return 2
        if new:
            rd = os.path.join(ed, "replays"); os.makedirs(rd, exist_ok=True)
            seen = set()
            for i, v in enumerate(new):
                if v["key"] in seen and i > 4:
                    continue
                seen.add(v["key"])
                rp = os.path.join(rd, "%s-%d.json" % (self.prop, i))
                json.dump(dict(v, property=self.prop, seed=self.seed, tier=self.tier), open(rp, "w"), indent=1)
                print("  %s [%s case %s] %s" % (v["key"], v.get("variant"), v.get("case"), v["msg"][:1000]))
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("%s: held on %d executions (%d distinct non-trivial), %.1f s" % (self.prop, self.evals, len(self.hashes), time.time() - self.t0))
        return 0

def main(argv):
    if len(argv) < 1:
        print(__doc__); return 2
    import props
    if argv[0] == "--prebuild":
        return prebuild()
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    c = Check(prop, tier, seed)
    try:
        rc = props.run(c)
    except CheckError as e:
        print("check %s failed: %s" % (prop, e))
        # a violation already witnessed stands even if a later stage could not finish
        if c.viol:
            rc = props.finish(c)
            rc = rc if rc == 1 else 2
        else:
            rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)
    sys.stdout.flush()
    return rc

def prebuild():
    """Fills the content-keyed build cache; every check still builds what the tree at that time needs."""
    import props
    t = time.time()
    def attempt(f):
        try:
            f()
        except CheckError as e:
            print("prebuild: %s" % str(e)[:2000])     # the checks report it
    for v in sorted({v for st in props.CPP.values() for _, v, _, _ in st} | {"fuzz"}):
        attempt(lambda: build_lib(v))
    for v in ("d", "f"):
        attempt(lambda: build_lib(v, cli=True))
    jobs = sorted({(h, v) for st in props.CPP.values() for h, v, _, _ in st} | {("C23", "fuzz")})
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda j: attempt(lambda: build_harness(j[0], j[1], props.EXTRA.get(j[0], ()))), jobs))
    print("prebuilt in %.0f s" % (time.time() - t))
    return 0

def replay(prop, path):
    r = json.load(open(path))
    d = tempfile.mkdtemp(prefix="onexv.")
    env = dict(CLEAN_ENV, **SAN, **literal_env())
    try:
        if r.get("variant") == "fuzz":
            exe = build_harness(r["harness"], "fuzz"); f = os.path.join(d, "in")
            open(f, "wb").write(bytes.fromhex(r["input_hex"])); env["VF_TMP"] = d
            return subprocess.call([exe, "-detect_leaks=0", f], env=env)
        import props
        if r.get("harness") is None:
            print(json.dumps(r, indent=1)); return 0
        exe = build_harness(r["harness"], r["variant"], props.EXTRA.get(r["harness"], ()))
        env.update(props.harness_env(prop, r["variant"]))
        rc = subprocess.call([exe, "--seed", str(r["seed"]), "--from", str(r["case"]), "--to", str(r["case"] + 1), "--tmp", d, "--out", d + "/out", "--tier", r["tier"]], env=env)
        print(open(d + "/out").read() if os.path.exists(d + "/out") else "(no result: crashed)")
        return rc
    finally:
        shutil.rmtree(d, ignore_errors=True)
