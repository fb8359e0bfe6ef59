"""Shared machinery of the checks: building drivers from /repo's working tree, running
script-driven drivers, model checking with TLC, validating logs against trace
specifications, and reporting."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))
LIBSRC = ["src/char_encoding.cpp", "src/condition.cpp", "src/lockfree.cpp", "src/thread.cpp", "src/variant.cpp"]
RXSRC = ["rx/rxcompile.cpp", "rx/rxmatch.cpp", "rx/rxdump.cpp"]

SCHEDWRAP = ["pthread_" + f for f in (
    "create join detach self mutex_init mutex_destroy mutex_lock mutex_trylock mutex_unlock "
    "cond_init cond_destroy cond_wait cond_timedwait cond_signal cond_broadcast").split()] + [
    "nanosleep", "usleep", "sched_yield", "clock_gettime", "gettimeofday"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class TlcResult:
    pass


class Ctx:
    def __init__(self, prop, level, technique_rule=""):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
            self.tier = sys.argv[2]
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vp_%s_" % prop)
        self.rng = random.Random("%s-%d" % (prop, self.seed))
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known_hits = []
        self.assumptions = []
        self.ops = {}
        self.exhaustive_note = []
        self.replays = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(self.replays, exist_ok=True)

    # ---- budget ----------------------------------------------------------------------
    def elapsed(self):
        return time.time() - self.t0

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ---- building --------------------------------------------------------------------
    def build(self, name, sources, flags=(), lib=False, rx=False, asan=True, opt="-O1", cxx="g++", sched=False):
        """sched: under the controlled scheduler (harness/vsched.cpp)"""
        out = os.path.join(self.tmp, name)
        if sched:
            sources = list(sources) + ["vsched.cpp"]
            asan = False
            flags = list(flags) + ["-Wl,--wrap=" + w for w in SCHEDWRAP]
        common = ["-std=c++11", "-g", opt, "-fno-omit-frame-pointer", "-w", "-DHAVE_PTHREADS",
                  "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
                  "-I" + os.path.join(REPO, "rx"), "-I" + HARN]
        if asan is True:
            common += ["-fsanitize=address"]
        elif asan:
            common += ["-fsanitize=" + asan]
        common += [f for f in flags if not f.startswith("-Wl") and not f.startswith("-l")]
        ld = [f for f in flags if f.startswith("-Wl") or f.startswith("-l")]
        srcs = [os.path.join(HARN, s) if not os.path.isabs(s) else s for s in sources]
        if lib:
            srcs += [os.path.join(REPO, s) for s in LIBSRC]
        if rx:
            srcs += [os.path.join(REPO, s) for s in RXSRC]
        objs = []

        def comp(i_s):
            i, s = i_s
            o = "%s.%d.o" % (out, i)
            r = sh([cxx] + common + (["-fsanitize=thread"] if sched and not s.endswith("vsched.cpp") else []) + ["-c", s, "-o", o])
            if r.returncode:
                raise CheckError("cannot build %s:\n%s" % (s, r.stdout[-4000:]))
            return o
        with cf.ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(comp, enumerate(srcs)))
        r = sh([cxx] + common + objs + ["-o", out, "-lpthread"] + ld)
        if r.returncode:
            raise CheckError("cannot link %s:\n%s" % (name, r.stdout[-4000:]))
        return out

    # ---- running drivers -----------------------------------------------------------------
    def drive(self, binary, scenarios, tag, env=None, timeout=600):
        """scenarios: list of (header, [op lines]); one driver process.  Returns the log path."""
        script = os.path.join(self.tmp, tag + ".script")
        out = os.path.join(self.tmp, tag + ".ndjson")
        with open(script, "w") as f:
            for sid, (hdr, ops) in scenarios:
                f.write("@ %d %s\n" % (sid, hdr))
                for o in ops:
                    f.write(o + "\n")
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0"
        e["TSAN_OPTIONS"] = "report_bugs=1:exitcode=66"
        e.update(env or {})
        try:
            r = sh([binary, script, out], env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s timed out" % binary)
        if r.returncode:
            raise CheckError("driver %s failed (%d): %s" % (binary, r.returncode, r.stdout[-2000:]))
        return out

    # ---- TLC ------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, timeout=600, heap="2g", extra=(), cwd=None):
        md = tempfile.mkdtemp(prefix="md_", dir=self.tmp)
        cfg = cfg or module + ".cfg"
        cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-Djava.io.tmpdir=" + self.tmp, "-Xmx" + heap, "-Xss64m",
               "-Dtlc2.TLC.stopAfter=%d" % timeout, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
               "-config", cfg] + (["-deadlock"] if "-simulate" in extra else []) + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = sh(cmd, cwd=cwd or SPEC, env=e, timeout=timeout + 60)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        t = TlcResult()
        t.rc, t.out = r.returncode, r.stdout
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", r.stdout)
        t.generated, t.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.search(r'<<"DIAMETER", (-?\d+), (\d+)>>', r.stdout)
        t.diameter = (int(m.group(1)), int(m.group(2))) if m else None
        return t

    def model_check(self, module, cfg=None, workers=NCPU, timeout=600, heap="8g", extra=(), minimum=1, env=None):
        """Exhaustive design-level check; must succeed."""
        t = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, extra=extra, env=env)
        if t.rc != 0 or "Model checking completed. No error has been found." not in t.out:
            raise CheckError("TLC on %s (%s): rc=%d\n%s" % (module, cfg, t.rc, t.out[-5000:]))
        if t.distinct < minimum:
            raise CheckError("TLC on %s explored only %d states" % (module, t.distinct))
        self.states += t.distinct
        self.transitions += t.generated
        self.extra.setdefault("design_models", []).append(
            dict(module=module, cfg=cfg or module + ".cfg", distinct_states=t.distinct, generated=t.generated))
        return t

    def validate(self, module, log, cfg=None, env=None, timeout=800, heap="3g"):
        """One log against one trace specification.  Returns (accepted, line_no, n_lines)."""
        e = {"TRACE": log}
        e.update(env or {})
        t = self.tlc(module, cfg, env=e, workers=1, timeout=timeout, heap=heap)
        if t.rc != 0 and t.diameter is None and "TLC threw an unexpected exception" in t.out and not re.search("StackOverflow|OutOfMemory|Malformed|IOException", t.out):
            # no action has a meaning for the event (a value outside every domain of the specification)
            st = re.findall(r"^State (\d+):", t.out, re.M)
            if st:
                n = sum(1 for _ in open(log))
                return False, int(st[-1]) - 1, n
        if t.diameter is None or t.rc != 0:
            raise CheckError("TLC failed on %s with %s: rc=%d\n%s" % (module, log, t.rc, t.out[-5000:]))
        self.states += t.distinct
        self.transitions += t.generated
        d, n = t.diameter
        return d == n, d, n

    def behaviours(self, t, sample=None):
        """The behaviours a model printed with PrintT(<<"SCRIPT", ToString(hist)>>): lists of tuples."""
        out = []
        found = re.findall(r'<<\s*"SCRIPT",\s*"(.*)"\s*>>', t.out)
        self.extra["model_transitions_available"] = self.extra.get("model_transitions_available", 0) + len(found)
        if sample is not None and sample < len(found):
            found = self.rng.sample(found, sample)
        for m in found:
            j = m.replace('\\"', '"').replace("<<", "[").replace(">>", "]").replace("TRUE", "true").replace("FALSE", "false")
            out.append(json.loads(j))
        return out

    # ---- script-driven conformance ------------------------------------------------------
    def conform(self, binary, module, scenarios, cfg=None, shards=NCPU, env=None, tlc_env=None, label="trace", max_viol=3, heap="3g"):
        """scenarios: list of (header, [op lines]).  Runs them on the real code and validates the
        logs against the trace specification; confirms and reports rejections."""
        scen = list(enumerate(scenarios))
        shards = max(1, min(shards, len(scen)))
        parts = [scen[i::shards] for i in range(shards)]
        tag0 = "%s_%s" % (label, os.path.basename(binary))

        def one(k):
            part = parts[k]
            log = self.drive(binary, part, "%s_%d" % (tag0, k), env=env)
            ok, d, n = self.validate(module, log, cfg, env=tlc_env, heap=heap)
            if os.path.exists(log + ".stat"):
                st = list(map(int, open(log + ".stat").read().split()))
                for key, v in zip(("schedules_run", "distinct_logs", "scenarios_explored_to_the_preemption_bound", "scenarios"), st):
                    self.extra[key] = self.extra.get(key, 0) + v
            return k, log, ok, d, n
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        for k, log, ok, d, n in res:
            with open(log) as f:
                lines = f.read().split("\n")
            for ln in lines[:d if not ok else n]:
                m = re.match(r'\{"op":"(\w+)"', ln)
                if m:
                    self.ops[m.group(1)] = self.ops.get(m.group(1), 0) + 1
            self.events += d
            self.traces += sum(1 for ln in lines[:d] if ln.startswith('{"op":"end"'))
            if ok:
                if len(self.samples) < 3 and lines:
                    self.samples.append(dict(kind=label, scenario=parts[k][0][1][1][:12], first_events=[ln[:300] for ln in lines[1:4]]))
                continue
            # find the scenario of line d+1
            sid = None
            for ln in lines[:d + 1]:
                m = re.match(r'\{"op":"begin","sid":(\d+)', ln)
                if m:
                    sid = int(m.group(1))
            if sid is None:
                raise CheckError("log %s rejected before any scenario" % log)
            one_s = [(sid, scenarios[sid])]
            log2 = self.drive(binary, one_s, "%s_re%d" % (tag0, k), env=env)
            ok2, d2, n2 = self.validate(module, log2, cfg, env=tlc_env)
            if ok2:
                # could depend on earlier scenarios in the same process: repeat the whole part
                log2 = self.drive(binary, parts[k], "%s_rp%d" % (tag0, k), env=env)
                ok2, d2, n2 = self.validate(module, log2, cfg, env=tlc_env)
                one_s = parts[k]
                if ok2:
                    raise CheckError("rejection of %s line %d not repeated" % (log, d + 1))
            l2 = open(log2).read().split("\n")
            self.violation("%s rejected the log of the real code at event %d: %s" % (module, d2 + 1, l2[d2][:600] if d2 < len(l2) else "?"),
                           dict(driver=os.path.basename(binary), trace_spec=module,
                                script=[dict(header=h, ops=o) for _, (h, o) in (one_s if len(one_s) == 1 else [(sid, scenarios[sid])])],
                                whole_part=len(one_s) > 1,
                                accepted_prefix=l2[max(0, d2 - 8):d2], rejected=l2[d2] if d2 < len(l2) else None,
                                stderr=open(log2 + ".err", errors="replace").read()[-3000:] if os.path.exists(log2 + ".err") else ""))
            if len(self.violations) >= max_viol:
                break

    def violation(self, what, detail):
        h = hashlib.sha1(json.dumps(detail, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(self.replays, "%s-%s.json" % (self.prop, h))
        with open(path, "w") as f:
            json.dump(dict(property=self.prop, what=what, seed=self.seed, tier=self.tier, detail=detail), f, indent=1, default=str)
        self.violations.append((what, path))

    # ---- evidence ------------------------------------------------------------------------
    def finish(self, rule="", distinct=None, evaluations=None):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"], implementation_events_checked=self.events)
        if self.ops:
            cov["events_per_operation"] = dict(sorted(self.ops.items()))
        if rule:
            cov["rule"] = rule
        if distinct is not None:
            cov["distinct_nontrivial"] = distinct
        if evaluations is not None:
            cov["evaluations"] = evaluations
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(self.elapsed(), 2), violations=len(self.violations))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known_hits:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + what[:1500])
        print("%s %s: states=%d transitions=%d traces=%d events=%d violations=%d %.1fs" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.events, len(self.violations), self.elapsed()))
        return 1 if self.violations else 0

    def cleanup(self):
        if os.environ.get("VP_KEEP"):
            print("kept", self.tmp)
        else:
            shutil.rmtree(self.tmp, ignore_errors=True)


def known_findings(prop):
    """Entries 'KNOWN-FINDING: property=<id> key=<key> <text>' of the committed list."""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\w+) key=(\S+) (.*)", ln)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main(registry):
    if len(sys.argv) < 2 or sys.argv[1] not in registry:
        print("usage: check <%s> [quick|thorough]" % "|".join(sorted(registry)))
        return 2
    prop = sys.argv[1]
    level, fn = registry[prop]
    ctx = Ctx(prop, level)
    try:
        rc = fn(ctx)
        return ctx.finish() if rc is None else rc
    except CheckError as e:
        # A violation already confirmed outweighs a later failure of the machinery
        if ctx.violations:
            return ctx.finish()
        print("CHECK-ERROR %s: %s" % (prop, e))
        return 3
    finally:
        ctx.cleanup()
