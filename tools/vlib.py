"""Builds the code under test from /repo's working tree, in several flavours,
into a private directory, and runs the harness in shards."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
JOBS = min(8, os.cpu_count() or 8)
INC = ["-I", os.path.join(REPO, "sml/include"), "-I", H]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
CASAN = ASAN + ["-fsanitize-recover=pointer-overflow"]  # see ubnull.c
WRAPS = ["malloc", "calloc", "realloc", "free", "strdup", "read", "write", "select", "poll", "getenv", "secure_getenv", "time", "gettimeofday", "clock_gettime"]
CWRAPS = ["memcpy", "memmove", "memset", "memcmp", "strlen", "strnlen", "memchr", "memrchr", "rawmemchr", "strchr", "strrchr", "strstr", "memmem", "strcmp", "strncmp", "strcpy", "strcat", "bcmp"]
CXX_SRC = ["model", "build", "core", "m_parse", "m_write", "m_transport", "m_misc", "m_cost", "m_server", "m_threads", "m_gen", "m_objects"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Flavour:
    """how the library is compiled and what it is linked with"""
    def __init__(self, name, cc="clang", cflags=(), ldflags=(), wrap=True, cost=False, uuid=True, link="clang++"):
        self.name, self.cc, self.cflags, self.ldflags = name, cc, list(cflags), list(ldflags)
        self.wrap, self.cost, self.uuid, self.link = wrap, cost, uuid, link
        if not uuid:
            self.cflags.append("-DSML_NO_UUID_LIB")


FLAV = {f.name: f for f in [
    Flavour("asan", cflags=["-O1", "-g"] + CASAN, ldflags=CASAN),
    Flavour("asan-nouuid", cflags=["-O1", "-g"] + CASAN, ldflags=CASAN, uuid=False),
    Flavour("gcc-asan", cc="gcc", cflags=["-O0", "-g"] + ASAN, ldflags=ASAN, link="g++"),
    Flavour("fuzz", cflags=["-O1", "-g", "-fsanitize=fuzzer-no-link"] + CASAN, ldflags=["-fsanitize=fuzzer"] + CASAN),
    Flavour("cost", cflags=["-O1", "-g", "-fno-builtin", "-fsanitize-coverage=trace-pc-guard"], cost=True),
    Flavour("plain", cflags=["-O2", "-g"]),
    Flavour("plain-nowrap", cflags=["-O2", "-g"], wrap=False),
    Flavour("clang-O3", cflags=["-O3"]),
    Flavour("gcc-O0", cc="gcc", cflags=["-O0"]),
    Flavour("gcc-O2", cc="gcc", cflags=["-O2"]),
    Flavour("gcc-O3-nouuid", cc="gcc", cflags=["-O3"], uuid=False),
    Flavour("gcc-O2-uchar", cc="gcc", cflags=["-O2", "-funsigned-char"]),
    Flavour("gcc-def", cc="gcc", cflags=["-g"]),
    Flavour("tsan", cflags=["-O0", "-g", "-fsanitize=thread"], ldflags=["-fsanitize=thread"], wrap=False),
    Flavour("tsan-nouuid", cflags=["-O0", "-g", "-fsanitize=thread"], ldflags=["-fsanitize=thread"], wrap=False, uuid=False),
    Flavour("msan", cflags=["-O1", "-g", "-fsanitize=memory", "-fsanitize-memory-track-origins=1", "-fno-omit-frame-pointer"],
            ldflags=["-fsanitize=memory"], wrap=False, uuid=False, link="clang"),
]}


def lib_sources():
    s = sorted(glob.glob(os.path.join(REPO, "sml/src/*.c")))
    if not s:
        raise BuildError("no sources in " + REPO)
    return s


def dictionary():
    """constants and short byte strings that occur in the sources, for the generators"""
    ints, strs = set(), set()
    esc = {"n": 10, "t": 9, "r": 13, "0": 0, "a": 7, "b": 8, "f": 12, "v": 11}
    for f in lib_sources() + sorted(glob.glob(os.path.join(REPO, "sml/include/sml/*.h"))):
        t = open(f, errors="replace").read()
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"//[^\n]*", " ", t)
        for m in re.finditer(r'"((?:[^"\\\n]|\\x[0-9a-fA-F]{2})*)"', t):
            s = re.sub(r"\\x([0-9a-fA-F]{2})", lambda k: chr(int(k.group(1), 16)), m.group(1))
            if "%" not in s and " " not in s and 2 <= len(s) <= 24 and not s.endswith(".h"):
                strs.add(s.encode("latin-1", "replace"))
        for m in re.finditer(r"\{([^{}]*)\}", t):
            el = [x.strip() for x in m.group(1).split(",") if x.strip()]
            if 2 <= len(el) <= 40 and all(re.fullmatch(r"0[xX][0-9a-fA-F]{1,2}|\d{1,3}|'[^'\\]'|'\\.'", x) for x in el):
                strs.add(bytes((ord(x[1]) if x[0] == "'" and x[1] != "\\" else esc.get(x[2], ord(x[2])) if x[0] == "'" else int(x, 0 if x.lower().startswith("0x") else 10)) & 255 for x in el))
        t = re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', t)
        for l in t.split("\n"):
            ns = re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", l)
            if len(ns) <= 7:
                ints.update(int(n, 16 if n.lower().startswith("0x") else 10) & (2 ** 64 - 1) for n in ns)
            for a, b in re.findall(r"(?<![\w.])(\d+)[uUlL]*\s*<<\s*(\d+)(?![\w.])", l):
                if int(b) < 64:
                    ints.add((int(a) << int(b)) & (2 ** 64 - 1))
    return "".join("i %d\n" % i for i in sorted(ints) if i > 1) + "".join("s %s\n" % s.hex() for s in sorted(strs))


class Builder:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf_")
        os.environ["VF_DICT"] = os.path.join(self.dir, "dict")
        with open(os.environ["VF_DICT"], "w") as f:
            f.write(dictionary())
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.t0 = time.time()
        self.pending = {}
        self.inputs = hashlib.sha256()
        for p in lib_sources() + sorted(glob.glob(os.path.join(REPO, "examples/*"))):
            if os.path.isfile(p) and p.endswith((".c", ".h")):
                self.inputs.update(open(p, "rb").read())

    def clean(self):
        self.pool.shutdown(wait=False, cancel_futures=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    def _cc(self, cmd, out):
        if os.path.exists(out):
            return out
        r = run(cmd)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
        return out

    def lib_objs(self, fl, extra_c=()):
        d = os.path.join(self.dir, fl.name)
        os.makedirs(d, exist_ok=True)
        futs = []
        for s in lib_sources() + list(extra_c):
            o = os.path.join(d, os.path.basename(s)[:-2] + ".o")
            cmd = [fl.cc, "-std=gnu99", "-w"] + INC + fl.cflags
            if os.path.basename(s) == "dump.c":
                if fl.wrap:
                    cmd.append("-DVF_WRAP")
                cmd = [c for c in cmd if not c.startswith(("-fsanitize-coverage", "-fsanitize=fuzzer"))]
            futs.append(self.pool.submit(self._cc, cmd + ["-c", s, "-o", o], o))
        return futs

    def harness_objs(self, srcs, extra=()):
        d = os.path.join(self.dir, "h" + hashlib.md5(repr(extra).encode()).hexdigest()[:6])
        os.makedirs(d, exist_ok=True)
        futs = []
        for s in srcs:
            o = os.path.join(d, s + ".o")
            futs.append(self.pool.submit(self._cc, ["clang++", "-std=c++17", "-O1", "-w"] + list(extra) + INC + ["-c", os.path.join(H, s + ".cpp"), "-o", o], o))
        return futs

    def start(self, names, server=False, srcs=CXX_SRC):
        """submit everything, so that the pool stays busy"""
        ho = self.harness_objs(srcs)
        d = os.path.join(self.dir, "c")
        os.makedirs(d, exist_ok=True)
        for n in ("wrap", "costwrap", "nowrap", "ubnull"):
            o = os.path.join(d, n + ".o")
            src = "wrap" if n == "nowrap" else n
            self.pending[n] = self.pool.submit(self._cc, ["clang", "-O1", "-w"] + (["-DVF_NOWRAP"] if n == "nowrap" else []) + INC + ["-c", os.path.join(H, src + ".c"), "-o", o], o)
        for n in names:
            self.pending[n] = (self.lib_objs(FLAV[n], [os.path.join(H, "dump.c")]), ho)
        if server:
            self.server()

    def binary(self, name):
        fl = FLAV[name]
        lib, ho = self.pending[name]
        objs = [f.result() for f in lib] + [f.result() for f in ho]
        out = os.path.join(self.dir, "vf-" + name)
        wraps = list(WRAPS) if fl.wrap else []
        objs.append(self.pending["wrap" if fl.wrap else "nowrap"].result())
        if fl.cost:
            objs.append(self.pending["costwrap"].result())
            wraps += CWRAPS
        if "-fsanitize-recover=pointer-overflow" in fl.cflags:
            objs.append(self.pending["ubnull"].result())
            wraps.append("__ubsan_handle_pointer_overflow")
        ld = [fl.link] + fl.ldflags + ["-Wl,--wrap=" + w for w in wraps] + objs + ["-o", out, "-lpthread", "-lm"]
        if fl.uuid:
            ld.append("-luuid")
        return self._cc(ld, out)

    def start_fuzz(self):
        fl = FLAV["fuzz"]
        lib = self.lib_objs(fl, [os.path.join(H, "dump.c")])
        if "wrap" not in self.pending:
            self.start([])
        srcs = [s for s in CXX_SRC if s not in ("core", "m_cost")] + ["fuzz"]
        self.pending["fuzz"] = (lib, self.harness_objs(srcs) + self.harness_objs(["core"], ("-DVF_FUZZ",)))

    def msan_binary(self):
        fl = FLAV["msan"]
        objs = [f.result() for f in self.lib_objs(fl, [os.path.join(H, "dump.c"), os.path.join(H, "msan_main.c")])]
        return self._cc(["clang"] + fl.ldflags + objs + ["-o", os.path.join(self.dir, "vf-msan"), "-lm"], os.path.join(self.dir, "vf-msan"))

    def server(self):
        fl = FLAV["asan"]
        lib = self.lib_objs(fl)
        d = os.path.join(self.dir, "srv")
        os.makedirs(d, exist_ok=True)
        o = os.path.join(d, "sml_server.o")
        main = self.pool.submit(self._cc, [fl.cc, "-std=gnu99", "-w"] + INC + fl.cflags + ["-c", os.path.join(REPO, "examples/sml_server.c"), "-o", o], o)
        out = os.path.join(d, "sml_server")
        objs = [f.result() for f in lib] + [main.result()]
        return self._cc(["clang"] + fl.ldflags + objs + [self.pending["ubnull"].result(), "-Wl,--wrap=__ubsan_handle_pointer_overflow", "-o", out, "-lm", "-luuid"], out)


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:max_allocation_size_mb=4096:malloc_context_size=12:handle_segv=1:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=66:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:history_size=4",
    "MSAN_OPTIONS": "exitcode=66:halt_on_error=1",
}


def san_env(log, extra=None):
    e = dict(os.environ)
    for k, v in SAN_ENV.items():
        e[k] = v + ":log_path=" + log
    e.pop("MALLOC_PERTURB_", None)
    if extra:
        e.update(extra)
    return e


def read_logs(prefix):
    t = ""
    for p in sorted(glob.glob(prefix + ".*")):
        try:
            t += open(p, errors="replace").read()
        except OSError:
            pass
    return t


def headline(log):
    for l in log.splitlines():
        if "ERROR:" in l or "runtime error" in l or "WARNING: ThreadSanitizer" in l or "WARNING: MemorySanitizer" in l:
            return l.strip()[:300]
    return ""


def crumb(path):
    try:
        with open(path, "rb") as f:
            b = f.read(64 + (1 << 20))
        unit, n = struct.unpack("<qQ", b[:16])
        return unit, b[64:64 + min(n, (1 << 20) - 64)]
    except Exception:
        return -1, b""


class Outcome:
    """ok / violation / inconclusive"""
    def __init__(self, kind, key="", msg="", unit=-1, inp="", log="", shard=0, argv=None, res=None):
        self.kind, self.key, self.msg, self.unit, self.inp, self.log, self.shard, self.argv, self.res = kind, key, msg, unit, inp, log, shard, argv, res


def run_shard(binary, argv, out, timeout, env=None):
    log = out + ".san"
    for p in glob.glob(out + ".*"):
        os.unlink(p)
    cmd = [binary] + argv + ["--out", out]
    try:
        p = subprocess.Popen(cmd, env=san_env(log, env), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        try:
            _, err = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
            unit, inp = crumb(out + ".crumb")
            return Outcome("timeout", "hang", "no progress", unit, inp.hex(), argv=argv)
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    except OSError as e:
        return Outcome("error", "spawn", str(e), argv=argv)
    rc = p.returncode
    logs = read_logs(log)
    unit, inp = crumb(out + ".crumb")
    res = None
    try:
        res = json.load(open(out + ".json"))
    except Exception:
        pass
    if rc == 0 and res and not res["failed"]:
        return Outcome("ok", res=res, argv=argv)
    if rc == 3 and res and res["failed"]:
        return Outcome("violation", res["key"], res["msg"], res["unit"], res["input"], logs, argv=argv, res=res)
    if rc in (66, 1) and logs:
        return Outcome("violation", "sanitizer", headline(logs) or "sanitizer report", unit, inp.hex(), logs, argv=argv)
    if rc == 78:
        return Outcome("violation", "hang", "one unit does not end (60 s of processor time, or 100000 reads at the end of a stream)", unit, inp.hex(), logs, argv=argv)
    if rc == 77:
        return Outcome("violation", "alloc-cap", "a single allocation out of proportion to the input was requested", unit, inp.hex(), logs, argv=argv)
    if rc < 0 and -rc not in (signal.SIGKILL, signal.SIGTERM):
        return Outcome("violation", "crash", "ended by signal %d" % -rc, unit, inp.hex(), logs, argv=argv)
    return Outcome("error", "exit", "harness ended with %s %s %s" % (rc, (err or b"")[-300:], logs[-500:]), unit, argv=argv)


def fuzz_env(d, pid, s, seed):
    return san_env(os.path.join(d, "fuzz-%d.san" % s), {"VF_TARGET": pid, "VF_OUT": os.path.join(d, "fuzz-%d" % s), "VF_SEEDS": os.path.join(d, "seeds-%d" % s), "VF_FSEED": str(seed)})


def run_fuzz(binary, d, pid, s, seed, runs, timeout):
    corp, art = os.path.join(d, "corp-%d" % s), os.path.join(d, "art-%d-" % s)
    seeds = os.path.join(d, "seeds-%d" % s)
    os.makedirs(corp, exist_ok=True)
    os.makedirs(seeds, exist_ok=True)
    cmd = [binary, corp, seeds, "-runs=%d" % runs, "-seed=%d" % seed, "-max_len=%d" % (600 if s % 2 else 2000), "-rss_limit_mb=0", "-malloc_limit_mb=0", "-detect_leaks=0",
           "-artifact_prefix=" + art, "-timeout=60", "-use_value_profile=%d" % (s % 4 == 1), "-verbosity=0", "-print_final_stats=0"] + (["-max_total_time=100"] if timeout < 1000 else [])
    try:
        p = subprocess.Popen(cmd, env=fuzz_env(d, pid, s, seed), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
        try:
            _, err = p.communicate(timeout=timeout)
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
    except subprocess.TimeoutExpired:
        return Outcome("error", "timeout", "the coverage-guided run did not finish in %d s" % timeout)
    except OSError as e:
        return Outcome("error", "spawn", str(e))
    rc, res, raw = p.returncode, None, b""
    out = os.path.join(d, "fuzz-%d" % s)
    try:
        res = json.load(open(out + ".json"))
    except Exception:
        pass
    for f in glob.glob(art + "*") + [out + ".raw"]:
        if os.path.exists(f) and "slow-unit" not in f:
            raw = open(f, "rb").read()
    logs = read_logs(os.path.join(d, "fuzz-%d.san" % s)) + err.decode(errors="replace")[-4000:]
    o = Outcome("ok", res=res)
    if rc == 0 and res and not res["failed"]:
        pass
    elif rc == 3 and res and res["failed"]:
        o = Outcome("violation", res["key"], res["msg"], res["unit"], res["input"], logs, res=res)
    elif rc == 70:
        o = Outcome("violation", "hang", "one input took more than 60 s", -1, raw.hex(), logs, res=res)
    elif rc in (66, 1, 77) or rc < 0 and -rc not in (signal.SIGKILL, signal.SIGTERM):
        h = headline(logs)
        if h or rc < 0 or raw:
            o = Outcome("violation", "sanitizer", h or "ended with %d" % rc, -1, raw.hex(), logs, res=res)
        else:
            o = Outcome("error", "exit", "ended with %d %s" % (rc, logs[-600:]))
    else:
        o = Outcome("error", "exit", "ended with %d %s" % (rc, logs[-600:]))
    o.raw = raw
    return o


def replay_fuzz(binary, d, pid, path):
    r = subprocess.run([binary, path], env=dict(fuzz_env(d, pid, 0, 1), VF_STDERR="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    print(r.stdout[-4000:], "exit status", r.returncode)
    print(read_logs(os.path.join(d, "fuzz-0.san"))[:4000])
    try:
        j = json.load(open(os.path.join(d, "fuzz-0.json")))
        print(j.get("key"), j.get("msg"))
    except Exception:
        pass


def run_msan(binary, inputs, res, timeout, only=None):
    log = res + ".san"
    try:
        p = subprocess.run([binary, inputs, res] + ([str(only)] if only is not None else []), env=san_env(log), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return Outcome("error", "timeout", "MSan driver did not finish")
    line = ""
    try:
        line = open(res).readline().strip()
    except OSError:
        pass
    if p.returncode == 0 and line.endswith("done"):
        return Outcome("ok", res=int(line.split()[0]))
    logs = read_logs(log)
    if logs and p.returncode == 66 or p.returncode < 0:
        i = line.split()[0] if line else "?"
        return Outcome("violation", "uninitialised", "%s at record %s of the MSan run" % (headline(logs) or "signal %d" % -p.returncode, line), int(i) if i.isdigit() else -1, log=logs)
    return Outcome("error", "exit", "MSan driver ended with %d %s %s" % (p.returncode, line, p.stderr[-300:]))
