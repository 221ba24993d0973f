"""Compile the repository's current sources with goto-cc, decide a harness with CBMC, replay counterexamples natively."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
LIB = os.path.join(VERIF, "lib")
HARN = os.path.join(VERIF, "harness")
SRC = os.path.join(REPO, "src")
MEM_LIMIT = 14 << 30


def cppflags():
    return ["-DLINUX", "-D_REENTRANT", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-I" + LIB, "-I" + SRC,
            "-I" + os.path.join(SRC, "vendor", "xxhash"), "-I/usr/include/apr-1.0"]


class Unit:
    """One harness decided by the solver."""
    def __init__(self, name, harness, srcs, libs=("vp.c", "apr_core.c", "out_null.c"), defs=None, unwind=6,
                 unwindset=None, flags=(), checks=True, bounds="", tier="quick", timeout=300, max_unwind=None,
                 redirect=True, srcdefs=None, allow_missing=(), cover=True, finding=None, solver="minisat2",
                 assumptions=(), object_bits=12, cover_unwind=None, replay_hang=False, native_libs=(), cost=1,
                 lib_from_repo=(), native_defs=None, skip_alarm=(), native_skip=(), optional=False, script=None, goto_skip=(), symx=False, jobs=1, steps=20000000):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.defs = dict(defs or {})
        self.srcdefs = dict(srcdefs or {})


def _limit():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    os.setsid()


def run(cmd, timeout, cwd=None, env=None, limit=True):
    """Returns (rc, stdout, stderr); rc None on timeout."""
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         preexec_fn=_limit if limit else os.setsid)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), time.time() - t0
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, "", "timeout", time.time() - t0


class BuildError(Exception):
    pass


class Builder:
    def __init__(self, work):
        self.work = work
        self.n = 0
        self.lock = threading.Lock()
        self.extra_cache = None

    def tmp(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.work, "f%d%s" % (self.n, suffix))

    def files(self, u, extra):
        fs = [(os.path.join(HARN, u.harness), "h")]
        fs += [(os.path.join(LIB, l), "h") for l in u.libs]
        fs += [(os.path.join(SRC, s), "s") for s in list(u.srcs) + [e for e in extra if not e.startswith("lib/")]]
        fs += [(os.path.join(LIB, e[4:]), "h") for e in extra if e.startswith("lib/")]
        return fs

    def defs(self, u, kind):
        d = ["-D%s=%s" % kv if kv[1] is not None else "-D" + kv[0] for kv in u.defs.items()]
        if kind == "s":
            d += ["-Dmain=vp_repo_main"]
            d += ["-D%s=%s" % kv if kv[1] is not None else "-D" + kv[0] for kv in u.srcdefs.items()]
            if u.redirect:
                d += ["-include", os.path.join(LIB, "redirect.h")]
        return d

    def goto(self, u, twin, extra=()):
        objs = []
        gen = []
        if u.script is not None:
            import coro
            gen = ['-DVP_GEN="%s"' % coro.pool_steps(self, u, extra)]
        for f, kind in self.files(u, extra):
            if (gen and kind == "s") or os.path.basename(f) in u.goto_skip:
                continue
            o = self.tmp(".gb")
            cmd = ["goto-cc", "-DVP_CBMC"] + gen + (["-DVP_TWIN"] if twin else []) + cppflags() + self.defs(u, kind) + ["-c", "-o", o, f]
            rc, out, err, _ = run(cmd, 120)
            if rc != 0:
                raise BuildError("goto-cc %s: %s" % (f, (err or out)[-2000:]))
            objs.append(o)
        o = self.tmp(".bin")
        rc, out, err, _ = run(["goto-cc", "-o", o, "--function", "vp_harness"] + objs, 120)
        if rc != 0:
            raise BuildError("goto-cc link %s: %s" % (u.name, (err or out)[-2000:]))
        return o

    def native(self, u, extra=(), sanitize=True):
        exe = self.tmp(".exe")
        objs = []
        files = self.files(u, extra)
        if u.script is not None:
            import coro
            files.append((coro.pool_gen(self, u), "h"))
        for f, kind in files:
            if os.path.basename(f) in u.native_skip or f == os.path.join(LIB, "libc.c"):
                continue
            o = self.tmp(".o")
            san = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=alignment", "-ftrivial-auto-var-init=pattern"] if sanitize else []
            cmd = (["gcc", "-w", "-g", "-O0"] + san + ["-fno-omit-frame-pointer", "-ffunction-sections", "-fno-pie"] + cppflags() + self.defs(u, kind) + ["-c", "-o", o, f])
            rc, out, err, _ = run(cmd, 120, limit=False)
            if rc != 0:
                raise BuildError("gcc %s: %s" % (f, (err or out)[-2000:]))
            objs.append(o)
        rc, out, err, _ = run(["gcc"] + (["-fsanitize=address,undefined"] if sanitize else []) + ["-o", exe] + objs + list(u.native_libs) + ["-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-lm", "-lpthread"], 120, limit=False)
        if rc != 0:
            raise BuildError("native link %s: %s" % (u.name, (err or out)[-2000:]))
        return exe

    def symx(self):
        """The symbolic executor, built once per run (or taken from the build of the same source)."""
        with self.lock:
            if getattr(self, "symx_exe", None):
                return self.symx_exe
            src = os.path.join(VERIF, "symx", "symx.cpp")
            key = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
            keep = os.path.join(VERIF, "build")
            exe = os.path.join(keep, "symx-" + key)
            if not os.path.exists(exe):
                os.makedirs(keep, exist_ok=True)
                flags = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
                flags = [f for f in flags if not f.startswith("-std=") and f != "-fno-exceptions"]
                libs = subprocess.run(["llvm-config-18", "--ldflags", "--libs", "core", "irreader", "support", "bitreader"], capture_output=True, text=True).stdout.split()
                tmp = exe + ".%d" % os.getpid()
                rc, out, err, _ = run(["g++", "-O2", "-w", "-std=c++17", "-fno-rtti"] + flags + ["-fexceptions", src, "-o", tmp] + libs + ["-lz3"], 300, limit=False)
                if rc != 0:
                    raise BuildError("symx: " + (err or out)[-2000:])
                os.rename(tmp, exe)
            self.symx_exe = exe
            return exe

    def bitcode(self, u, extra=()):
        objs = []
        files = self.files(u, [e for e in extra if e != "lib/libc.c"])
        files += [(os.path.join(LIB, "libc.c"), "h"), (os.path.join(LIB, "libc_sym.c"), "h")]
        for f, kind in files:
            if os.path.basename(f) in u.goto_skip:
                continue
            o = self.tmp(".bc")
            cmd = ["clang", "-w", "-g", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-fno-vectorize", "-emit-llvm", "-DVP_SYMX"] + cppflags() + self.defs(u, kind) + ["-c", "-o", o, f]
            rc, out, err, _ = run(cmd, 120, limit=False)
            if rc != 0:
                raise BuildError("clang %s: %s" % (f, (err or out)[-2000:]))
            objs.append(o)
        o, o2 = self.tmp(".bc"), self.tmp(".bc")
        rc, out, err, _ = run(["llvm-link-18", "-o", o] + objs, 120, limit=False)
        if rc != 0:
            raise BuildError("llvm-link %s: %s" % (u.name, (err or out)[-2000:]))
        rc, out, err, _ = run(["opt-18", "-passes=internalize,globaldce,function(sroa,simplifycfg)", "-internalize-public-api-list=vp_harness", "-o", o2, o], 120, limit=False)
        if rc != 0:
            raise BuildError("opt %s: %s" % (u.name, (err or out)[-2000:]))
        return o2

    def find_definitions(self, u, missing, already):
        """Repository sources, not already linked, that define one of the missing functions."""
        res = []
        for f in sorted(os.listdir(SRC)):
            if not f.endswith(".c") or f in already:
                continue
            o = self.tmp(".gb")
            rc, _, _, _ = run(["goto-cc", "-DVP_CBMC"] + cppflags() + ["-include", os.path.join(LIB, "redirect.h"), "-c", "-o", o, os.path.join(SRC, f)], 60)
            if rc != 0:
                continue
            rc, out, _, _ = run(["goto-instrument", "--list-goto-functions", o], 60)
            names = set(re.findall(r"^([A-Za-z_]\w*)", out, re.M))
            if names & set(missing):
                res.append(f)
                missing = set(missing) - names
        for f in ("libc.c", "num.c", "apr_array.c", "apr_lock.c"):
            if f in u.libs or not missing:
                continue
            names = set(re.findall(r"^[A-Za-z_][\w \*]*?\b(\w+)\([^;]*\)\s*(?:\{|$)", open(os.path.join(LIB, f)).read(), re.M))
            if names & set(missing):
                res.append("lib/" + f)
                missing = set(missing) - names
        return res


def parse_json_ui(text):
    try:
        return json.loads(text)
    except ValueError:
        # truncated: try to close the list
        try:
            return json.loads(text.rstrip().rstrip(",") + "]")
        except ValueError:
            return None


def cbmc_cmd(u, binary, unwind, twin):
    cmd = ["cbmc", binary, "--function", "vp_harness", "--json-ui", "--verbosity", "8", "--drop-unused-functions", "--no-malloc-may-fail",
           "--object-bits", str(u.object_bits), "--unwind", str(unwind), "--unwinding-assertions"]
    if u.solver != "minisat2":
        cmd += ["--sat-solver", u.solver]
    if u.unwindset:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in u.unwindset.items())]
    if twin or not u.checks:
        cmd += ["--no-standard-checks"]
        if not twin:
            cmd += ["--unwinding-assertions"]
    if twin:
        cmd = [c for c in cmd if c != "--unwinding-assertions"] + ["--no-unwinding-assertions"]
    return cmd + list(u.flags)


class Outcome:
    def __init__(self, u):
        self.unit = u
        self.status = "?"      # pass, violation, undecided
        self.detail = ""
        self.replay = None
        self.failed = []
        self.nprops = self.queries = 0
        self.solver_s = self.symex_s = self.wall = 0.0
        self.unwind = u.unwind
        self.functions = []
        self.covers = []
        self.runs = 0
        self.paths = self.instructions = 0
        self.notes = []
        self.hard = False      # undecided for a reason other than an exhausted budget or a function without a model


def stats(o, doc):
    for m in doc:
        t = m.get("messageText", "")
        if t.startswith("Runtime Solver:") or t.startswith("Runtime decision procedure:"):
            if t.startswith("Runtime decision"):
                o.solver_s += float(t.split(":")[1].strip().rstrip("s"))
        elif t.startswith("Runtime Symex:"):
            o.symex_s += float(t.split(":")[1].strip().rstrip("s"))
        g = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", t)
        if g:
            o.queries += int(g.group(2))


def missing_bodies(doc):
    r = set()
    for m in doc:
        g = re.search(r"no body for (?:function|callee) (\S+)", m.get("messageText", ""))
        if g:
            r.add(g.group(1).strip("'`"))
    return r


def is_unwind(prop):
    return ".unwind." in prop["property"] or ".recursion" in prop["property"] or "unwinding assertion" in prop.get("description", "") \
        or "recursion unwinding" in prop.get("description", "")


def results(doc):
    """Verdicts per assertion; a run that stops at the first failure yields that one only."""
    for m in doc:
        if "result" in m:
            return m["result"]
    one = [dict(m, status="FAILURE") for m in doc if "property" in m and "trace" in m]
    if one:
        return one
    if any(m.get("cProverStatus") == "success" for m in doc):
        return []
    return None


def trace_values(doc, propname):
    for m in [{"result": results(doc) or []}]:
        for p in m["result"]:
            if p.get("property") == propname and p.get("trace"):
                vals, loc = [], ""
                for s in p["trace"]:
                    if s.get("stepType") == "assignment" and s.get("lhs") == "vp_log":
                        if s.get("sourceLocation", {}).get("function") in (None, "", "__CPROVER_initialize"):
                            continue
                        v = s.get("value", {})
                        if "binary" in v:
                            vals.append(int(v["binary"], 2))
                        else:
                            vals.append(int(re.sub(r"[^0-9-]", "", v.get("data", "0")) or 0))
                    if s.get("stepType") == "failure":
                        l = s.get("sourceLocation", {})
                        loc = "%s:%s %s" % (os.path.basename(l.get("file", "?")), l.get("line", "?"), l.get("function", "?"))
                return vals, loc
    return None, ""


def replay_native(exe, values, workdir, timeout=60):
    """Returns (reproduced, description)."""
    f = os.path.join(workdir, "replay_in_%d_%d.txt" % (os.getpid(), threading.get_ident()))
    with open(f, "w") as fh:
        fh.write("\n".join(str(v) for v in values) + "\n")
    last = ""
    for fill in ("0xA5", "mix", "0x00", "0xFF", "0x01"):
        env = dict(os.environ, VP_REPLAY=f, VP_FILL=fill,
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=43:detect_stack_use_after_return=1:max_malloc_fill_size=268435456:malloc_fill_byte=%d" % (0x5A if fill == "mix" else int(fill, 16)),
                   UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=44")
        scratch = tempfile.mkdtemp(dir=workdir)
        rc, out, err, _ = run([exe], timeout, cwd=scratch, env=env, limit=False)
        shutil.rmtree(scratch, ignore_errors=True)
        if rc is None:
            last = "does not terminate (%d s)" % timeout
            return "hang", last
        if rc == 42:
            g = re.search(r"VP-ASSERT-FAILED (.*)", err)
            return "yes", g.group(1) if g else "assertion"
        if rc in (43, 44) or rc < 0 or "runtime error:" in err or "AddressSanitizer" in err:
            g = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)", err)
            return "yes", (g.group(1)[:300] if g else "killed by signal %s" % rc)
        last = "rc=%s %s" % (rc, err.strip().splitlines()[-1] if err.strip() else "")
    return "no", last


def replay_uninit(b, u, extra, values, workdir):
    """Does the run depend on memory that was never written?  (valgrind, without the fill of fresh blocks)"""
    exe = b.native(u, extra, sanitize=False)
    f = os.path.join(workdir, "replay_un_%d_%d.txt" % (os.getpid(), threading.get_ident()))
    with open(f, "w") as fh:
        fh.write("\n".join(str(v) for v in values) + "\n")
    scratch = tempfile.mkdtemp(dir=workdir)
    rc, out, err, _ = run(["valgrind", "-q", "--leak-check=no", "--error-exitcode=45", exe], 60, cwd=scratch, env=dict(os.environ, VP_REPLAY=f, VP_FILL="none"), limit=False)
    shutil.rmtree(scratch, ignore_errors=True)
    g = re.search(r"==\d+== ([^\n]*uninitialised[^\n]*)", err or "")
    if g:
        return "yes", "valgrind: " + g.group(1)
    return "no", "no use of uninitialised memory"


def decide(b, u, log, deadline):
    o = Outcome(u)
    t0 = time.time()
    try:
        (_decide_symx if u.symx else _decide)(b, u, o, log, deadline)
    except BuildError as e:
        o.status, o.detail = "undecided", "build: " + str(e)
    o.wall = time.time() - t0
    return o


def _budget(u, deadline):
    return max(5, min(u.timeout, deadline - time.time()))


def _decide_symx(b, u, o, log, deadline):
    extra = []
    exe = None
    while True:
        bc = b.bitcode(u, extra)
        budget = _budget(u, deadline)
        rc, out, err, dt = run([b.symx(), "--time", str(int(budget)), "--jobs", str(u.jobs), "--steps", str(u.steps), bc], budget + 60)
        o.runs += 1
        try:
            doc = json.loads(out)
        except ValueError:
            o.status, o.detail = "undecided", "symx rc=%s %s" % (rc, (out + err)[-500:])
            return
        if os.environ.get("VP_VERBOSE"):
            log(err[-3000:])
        parts = doc if isinstance(doc, list) else [doc]
        miss = {m for p in parts for m in p.get("missing", [])}
        if miss and not extra:
            extra = b.find_definitions(u, miss, set(u.srcs))
            if extra:
                log("%s: linking %s for %s" % (u.name, extra, sorted(miss)))
                continue
        break
    for p in parts:
        o.queries += p.get("queries", 0)
        o.solver_s += p.get("solver_s", 0)
        o.nprops += p.get("assertions", 0)
    o.paths = sum(p.get("paths", 0) for p in parts)
    o.instructions = sum(p.get("instructions", 0) for p in parts)
    o.functions = sorted({f for p in parts for f in p.get("functions", [])})
    o.covers = sorted({c for p in parts for c in p.get("covers", [])})
    viols = [v for p in parts for v in p["violations"]]
    viols.sort(key=lambda v: 0 if v["what"].startswith("VP ") else 1)
    for v in viols[:6]:
        if exe is None:
            exe = b.native(u, extra)
        ok, what = replay_native(exe, v["values"], b.work, 20)
        if ok == "no":
            ok2, what2 = replay_uninit(b, u, extra, v["values"], b.work)
            if ok2 == "yes":
                ok, what = ok2, what2
        log("%s: %s [%s] replay: %s (%s)" % (u.name, v["what"], v["loc"], ok, what))
        o.failed.append((v["what"], v["loc"], ok, what))
        if ok == "yes" or (ok == "hang" and u.replay_hang):
            o.status, o.detail, o.replay = "violation", "%s [%s]; native replay: %s" % (v["what"], v["loc"], what), v["values"]
            return
    und = [p["undecided"] for p in parts if p.get("undecided")]
    if any(v["what"].startswith("VP ") for v in viols):
        o.hard = True
        o.status, o.detail = "undecided", "counterexample did not reproduce: %s" % o.failed
    elif viols:
        o.status, o.detail = "undecided", "not confirmed by a native run: %s" % o.failed
    elif und:
        o.status, o.detail = "undecided", und[0]
    elif u.cover and not o.covers:
        o.hard = True
        o.status, o.detail = "undecided", "vacuous: no cover point reached"
    else:
        o.status = "pass"
        want = set(u.cover) if isinstance(u.cover, (list, tuple, set)) else set()
        if want - set(o.covers):
            o.hard = True
            o.status, o.detail = "undecided", "vacuous: not reached: %s" % sorted(want - set(o.covers))


def _decide(b, u, o, log, deadline):
    extra = []
    binary = b.goto(u, False)
    unwind = u.unwind
    cap = u.max_unwind or unwind * 4
    exe = None
    STOP = ["--stop-on-fail", "--trace"]
    first = "--paths" in u.flags        # path by path: stop at the first failing path
    while True:
        rc, out, err, dt = run(cbmc_cmd(u, binary, unwind, False) + (STOP if first else []), _budget(u, deadline))
        o.runs += 1
        if rc is None and not first and deadline - time.time() > 30:
            # too big to decide every assertion: look for one failing path
            log("%s: not decided in %.0f s, looking for a failing path" % (u.name, dt))
            rc, out, err, dt = run(cbmc_cmd(u, binary, unwind, False) + ["--paths", "lifo"] + STOP, _budget(u, deadline))
            o.runs += 1
            if rc == 0:
                rc = None
        if rc is None:
            o.status, o.detail = "undecided", "solver budget exhausted (%.0f s, unwind %d)" % (dt, unwind)
            return
        doc = parse_json_ui(out)
        if doc is None:
            o.status, o.detail = "undecided", "cbmc: unreadable output rc=%s %s" % (rc, (out + err)[-500:])
            return
        stats(o, doc)
        miss = missing_bodies(doc) - set(u.allow_missing)
        if miss and not extra:
            extra = b.find_definitions(u, miss, set(u.srcs))
            if extra:
                log("%s: linking %s for %s" % (u.name, extra, sorted(miss)))
                binary = b.goto(u, False, extra)
                continue
        if miss:
            o.status, o.detail = "undecided", "no model of the called functions: %s" % ", ".join(sorted(miss))
            return
        res = results(doc)
        if res is None:
            msg = " | ".join(m.get("messageText", "") for m in doc if m.get("messageType") == "ERROR")
            o.status, o.detail = "undecided", "cbmc rc=%s: %s" % (rc, (msg or err or out)[-500:])
            return
        o.nprops = max(o.nprops, len(res))
        o.unwind = unwind
        failed = [p for p in res if p["status"] == "FAILURE"]
        real = [p for p in failed if not is_unwind(p)]
        loops = [p for p in failed if is_unwind(p)]
        unknown = [p for p in res if p["status"] not in ("SUCCESS", "FAILURE")]
        real.sort(key=lambda p: 0 if p.get("description", "").startswith("VP ") else 1)
        if real:
            for p in real[:4]:
                if p.get("trace"):
                    tdoc = doc
                else:
                    cmd = cbmc_cmd(u, binary, unwind, False) + ["--trace", "--property", p["property"]]
                    rc, tout, terr, dt = run(cmd, _budget(u, deadline))
                    tdoc = parse_json_ui(tout) if rc is not None else None
                vals, loc = trace_values(tdoc, p["property"]) if tdoc else (None, "")
                if vals is None:
                    o.detail = "no trace for %s" % p["property"]
                    continue
                if exe is None:
                    exe = b.native(u, extra)
                ok, what = replay_native(exe, vals, b.work, 20)
                if ok == "no" and p.get("description", "").startswith("VP "):
                    ok2, what2 = replay_uninit(b, u, extra, vals, b.work)
                    if ok2 == "yes":
                        ok, what = ok2, what2
                log("%s: %s: %s [%s] replay: %s (%s)" % (u.name, p["property"], p.get("description"), loc, ok, what))
                o.failed.append((p["property"], p.get("description"), loc, ok, what))
                if ok == "yes" or (ok == "hang" and u.replay_hang):
                    o.status = "violation"
                    o.detail = "%s [%s]; native replay: %s" % (p.get("description"), loc, what)
                    o.replay = vals
                    return
            if first:
                first = False           # not confirmed: judge every assertion
                continue
            if any(p.get("description", "").startswith("VP ") for p in real):
                if not loops:
                    o.hard = True
                    o.status, o.detail = "undecided", "counterexample did not reproduce: %s" % (o.failed or o.detail)
                    return
            else:
                # language-level checks that the sanitizers do not confirm: noted, not reported
                o.notes = ["%s: %s" % (p["property"], p.get("description")) for p in real]
        if loops:
            if unwind * 2 <= cap:
                unwind *= 2
                log("%s: unwinding bound too small (%s), retrying with %d" % (u.name, loops[0]["property"], unwind))
                continue
            # a loop that does not end within the bound: is it a real hang?
            p = loops[0]
            if u.replay_hang:
                cmd = cbmc_cmd(u, binary, unwind, False) + ["--trace", "--property", p["property"]]
                rc, tout, terr, dt = run(cmd, _budget(u, deadline))
                tdoc = parse_json_ui(tout) if rc is not None else None
                vals, loc = trace_values(tdoc, p["property"]) if tdoc else (None, "")
                if vals is not None:
                    exe = exe or b.native(u, extra)
                    ok, what = replay_native(exe, vals, b.work, 10)
                    log("%s: loop %s replay: %s (%s)" % (u.name, p["property"], ok, what))
                    if ok in ("hang", "yes"):
                        o.status, o.detail, o.replay = "violation", "%s; native replay: %s" % (p.get("description"), what), vals
                        return
            o.status, o.detail = "undecided", "loop bound %d not sufficient: %s" % (unwind, p["property"])
            return
        if unknown:
            o.status, o.detail = "undecided", "unknown verdict for %d assertions" % len(unknown)
            return
        break
    # reachability twin: every cover point must be reached
    if u.cover:
        binary = b.goto(u, True, extra)
        rc, out, err, dt = run(cbmc_cmd(u, binary, u.cover_unwind or unwind, True), _budget(u, deadline))
        doc = parse_json_ui(out) if rc is not None else None
        if doc is None:
            o.status, o.detail = "undecided", "reachability twin: budget exhausted"
            return
        o.runs += 1
        stats(o, doc)
        res = next((m["result"] for m in doc if "result" in m), [])
        cov = [p for p in res if p.get("description", "").startswith("VPCOVER")]
        dead = [p["description"] for p in cov if p["status"] != "FAILURE"]
        o.covers = [p["description"][8:] for p in cov if p["status"] == "FAILURE"]
        if not cov or dead:
            o.hard = True
            o.status, o.detail = "undecided", "vacuous: not reached: %s" % (dead or "no cover point")
            return
    rc, out, _, _ = run(["goto-instrument", "--reachable-call-graph", binary], 60)
    if rc == 0:
        fn = set(re.findall(r"([A-Za-z_]\w*)", "\n".join(l for l in out.splitlines() if "->" in l)))
        o.functions = sorted(fn)
    o.status = "pass"
