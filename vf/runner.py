"""Builds the monitors for one property from /repo's working tree, runs them on all cores, collects verdicts and evidence."""
import os, sys, json, time, subprocess, struct, lzma, shutil, re, mmap, hashlib, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
NCPU = 8
STUCK_S, RERUN_S = 80, 120            # watchdog per case; a hang is reported only if it repeats when the case runs alone
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=1:max_allocation_size_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "MSAN_OPTIONS": "exitcode=77:abort_on_error=0",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=77:report_signal_unsafe=0:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=77",
}

def no_aslr():
    try: return ["setarch", "-R"] if subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 else []
    except OSError: return []

class Inconclusive(Exception):
    pass

def load_known():
    known = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
            if m: known.append(m.groups())
    return known

def encs_inc(out):
    names = json.load(open(os.path.join(VERIF, "golden/names.json")))
    q = lambda s: '"%s"' % s
    with open(os.path.join(out, "encs.inc"), "w") as f:
        f.write(subprocess.run([sys.executable, os.path.join(VERIF, "tools/mkencs.py")], stdout=subprocess.PIPE, text=True, check=True).stdout)

    with open(os.path.join(out, "encconst.inc"), "w") as f:
        for e in names: f.write("RX_ENC(%s, %s)\n" % (q(e["id"]), e["const"]))

def blob(out):
    p = os.path.join(out, "tables.bin")
    with lzma.open(os.path.join(VERIF, "golden/tables.bin.xz")) as i, open(p, "wb") as o:
        shutil.copyfileobj(i, o, 1 << 22)
    return p

class Proc:
    def __init__(self, pid_, exe, cmd, env, base, tag):
        self.cmd, self.tag, self.base = cmd, tag, base
        self.log = open(base + ".log", "wb")
        self.p = subprocess.Popen(cmd, stdout=self.log, stderr=subprocess.STDOUT, env=env, cwd=os.path.dirname(base), start_new_session=True)
        self.last, self.t, self.n, self.slack = None, time.time(), 0, 1
    def beat(self):
        try:
            with open(self.base + ".ctl", "rb") as f:
                d = f.read(248)
            return struct.unpack("<Q", d[:8])[0] if len(d) >= 8 else 0
        except OSError:
            return 0
    def cur(self):
        try:
            with open(self.base + ".ctl", "rb") as f:
                d = f.read(300)
            a = d[8:88].split(b"\0")[0].decode("latin1"); b = d[88:248].split(b"\0")[0].decode("latin1")
            return a, b
        except OSError:
            return "", ""
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait()

def summary(log):
    t = open(log, "rb").read().decode("latin1")
    m = re.search(r"SUMMARY: (\w+): (.*)", t)
    if m:
        s = re.sub(r"/\S*/", "", m.group(2)); s = re.sub(r":\d+(:\d+)?", "", s)
        s = re.sub(r"0x[0-9a-f]+", "", s)
        return (m.group(1) + " " + s).strip(), t
    m = re.search(r"([\w./]+\.(?:h|c|cpp)):\d+:\d+: runtime error: (.*)", t)
    if m: return "UBSan " + os.path.basename(m.group(1)) + " " + re.sub(r"\d+", "N", m.group(2)), t
    return "", t

class Check:
    def __init__(self, pid, spec, tier, seed, replay=None, scale=1.0):
        self.pid, self.spec, self.tier, self.seed, self.scale = pid, spec, tier, seed, scale
        self.out = os.path.join(VERIF, "build", pid); self.vio = []; self.counters = {}; self.samples = []; self.evals = 0; self.distinct = 0
        self.t0 = time.time(); self.runs = []; self.restarts = 0
    def build(self):
        s = self.spec
        if os.path.isdir(self.out): shutil.rmtree(self.out)
        os.makedirs(self.out)
        inc = B.headers(self.out); encs_inc(self.out)
        jobs = []; libs = {}
        variants = sorted({e["variant"] for e in s["exes"] if not e.get("nolib")})
        for v in variants:
            js = B.lib_jobs(self.out, inc, v); jobs += [c for c, _ in js]; libs[v] = [o for _, o in js]
        links = []
        for e in s["exes"]:
            cc, cxx, fl = B.VARIANTS[e["variant"]]
            if e.get("custom"):
                j, l = e["custom"](B, self.out, inc, fl, cc, cxx); jobs += j; links += l; continue
            src = os.path.join(VERIF, "vf/checks", e["src"]); o = os.path.join(self.out, "h-" + e["exe"] + ".o")
            if e.get("hvariant"): fl = B.VARIANTS[e["hvariant"]][2]
            hfl = list(fl) + (["-fno-sanitize=undefined"] if "asan" in e["variant"] else [])      # judge the library's arithmetic, not the harness's
            jobs.append([cxx, "-std=c++20", "-w"] + hfl + [y for x in e.get("cflags", []) for y in (["-DRX_MAJ=%s" % B.project()[0][0], "-DRX_MIN=%s" % B.project()[0][1], "-DRX_PAT=%s" % B.project()[0][2]] if x == "@VERSION" else [x])] + ["-I" + os.path.join(VERIF, "vf/h"), "-I" + self.out, "-I" + inc, "-c", src, "-o", o])
            links.append([cxx] + fl + [o, os.path.join(self.out, "lib-%s.a" % e["variant"])] + ["-lpthread", "-ldl"] + e.get("ldflags", []) + ["-o", os.path.join(self.out, e["exe"])])
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(NCPU) as ex:
            bl = ex.submit(blob, self.out) if s.get("blob", True) else None
            # longest first: iconv.c
            jobs.sort(key=lambda c: 0 if any("iconv.c" in x for x in c) else 1)
            list(ex.map(B.run, jobs))
            for v in variants:
                B.run(["ar", "rcs", os.path.join(self.out, "lib-%s.a" % v)] + libs[v])
            list(ex.map(B.run, links))
            self.blob = bl.result() if bl else "/dev/null"
        self.build_s = time.time() - self.t0
    def env(self, e):
        env = dict(os.environ); env.update(SAN_ENV); env.update({k: v.replace("@OUT@", self.out).replace("@REPO@", B.REPO) for k, v in e.get("env", {}).items()})
        env["RX_KNOWN"] = "".join(k[1] + "\n" for k in load_known() if k[0] == self.pid)
        env.pop("LD_PRELOAD", None); env["LC_ALL"] = "C"
        if e.get("corpus"): env["RX_CORPUS_DIR"] = os.path.join(self.out, "run")
        return env
    def start(self, e, shard, n, extra=(), base=None, pre=()):
        os.makedirs(os.path.join(self.out, "run"), exist_ok=True)
        base = base or os.path.join(self.out, "run", "%s.%d" % (e["exe"], shard)); os.makedirs(os.path.dirname(base), exist_ok=True)
        for x in (".ctl", ".json", ".json.vio"):
            if os.path.exists(base + x): os.remove(base + x)
        cmd = list(pre) + [os.path.join(self.out, e["exe"]), "--shard", "%d/%d" % (shard, n), "--seed", str(self.seed), "--tier", self.tier, "--out", base + ".json",
               "--ctl", base + ".ctl", "--bitmap", os.path.join(self.out, "run", e["exe"] + ".bits"), "--blob", self.blob] + list(extra)
        sc = e.get("scale", {}).get(self.tier, 1.0) * self.scale * (self.spec.get("qscale", 1.0) if self.tier == "quick" else 1.0)
        if sc != 1.0: cmd += ["--scale", repr(sc)]
        if e.get("only"): cmd += ["--only", e["only"]]
        return Proc(self.pid, e, cmd, self.env(e), base, (e["exe"], shard, n))
    def crashed(self, e, p, rc):
        cur, note = p.cur(); s, log = summary(p.base + ".log")
        mode = cur.split(":")[0]
        key = "crash:%s:%s" % (mode, s or ("signal %d" % -rc if rc < 0 else "exit %d" % rc))
        m = re.search(r"#\d+ 0x\w+ in (\S+) [^\n]*/repo/", log)
        self.vio.append(dict(key=key, case=cur, exe=e["exe"], what="%s while running case %s %s\n%s" % (s or "abnormal end rc=%d" % rc, cur, note, log[:6000])))
    def hang(self, e, p):
        """same case for a long time: run it alone; only a repeated hang is a violation"""
        cur, note = p.cur(); p.kill()
        q = self.start(e, 0, 1, ["--replay", cur], base=os.path.join(self.out, "run", "hang-%s-%d" % (p.tag[0], p.tag[1])))
        try:
            rc = q.p.wait(RERUN_S)
        except subprocess.TimeoutExpired:
            q.kill()
            self.vio.append(dict(key="hang:%s" % cur.split(":")[0], case=cur, exe=e["exe"], what="no end within %d s alone, twice: case %s %s" % (RERUN_S, cur, note)))
            return
        if rc != 0: self.crashed(e, q, rc); return None
        return self.again(e, p, "case %s of %s took too long once, not when repeated" % (cur, e["exe"]))
    def again(self, e, p, why):
        """the machine, not the code, got in the way (slow, out of memory, no room for shadow memory): the worker's cases from the start"""
        p.n += 1
        if p.n > 4: raise Inconclusive(why)
        q = self.start(e, p.tag[1], p.tag[2], pre=no_aslr()); q.n = p.n; q.slack = 4
        self.restarts += 1
        return q
    def tool_failed(self, p):
        """a sanitizer that could not start, or a worker the system ended: nothing the code did"""
        if p.p.returncode == 0: return ""
        t = open(p.base + ".log", "rb").read(20000).decode("latin1")
        m = re.search(r"FATAL: \w+Sanitizer: (unexpected memory mapping|.*mmap.*fail)|Shadow memory range interleaves|FATAL: .*can not mmap|failed to (?:reserve|allocate) .*(?:shadow|memory map)", t)
        if m: return m.group(0)
        if p.p.returncode == -signal.SIGKILL and p.n == 0: return "worker ended by the system"
        return ""
    def harvest(self, e, p):
        rc = p.p.returncode
        if os.path.exists(p.base + ".json.vio"):
            for l in open(p.base + ".json.vio", errors="replace"):
                try: v = json.loads(l)
                except ValueError: continue
                v["exe"] = e["exe"]; self.vio.append(v)
        if rc != 0:
            if rc == 3: raise Inconclusive("harness error: " + open(p.base + ".log", errors="replace").read()[-2000:])
            self.crashed(e, p, rc)
        if os.path.exists(p.base + ".json"):
            j = json.load(open(p.base + ".json", errors="replace"))
            self.evals += j["evals"]; self.distinct += j["distinct"]
            for k, v in j["counters"].items():
                k = e["exe"] + "." + k if len(self.spec["exes"]) > 1 else k
                self.counters[k] = self.counters.get(k, 0) + v
            self.samples += j["samples"][:2]
    def run(self):
        for e in self.spec["exes"]:
            t = time.time(); n = e.get("shards", NCPU)
            procs = [self.start(e, i, n) for i in range(n)]
            live = list(procs); stuck_s = e.get("stuck_s", STUCK_S)
            while live:
                time.sleep(0.02)
                for p in list(live):
                    if p.p.poll() is not None:
                        live.remove(p); why = self.tool_failed(p)
                        if why: live.append(self.again(e, p, why))
                        else: self.harvest(e, p)
                        continue
                    b = p.beat()
                    if b != p.last: p.last, p.t = b, time.time()
                    elif time.time() - p.t > stuck_s * p.slack:
                        live.remove(p)
                        try:
                            q = self.hang(e, p)
                            if q: live.append(q)
                            if any(v["key"].startswith("hang") for v in self.vio): break      # one is enough; confirming each would take minutes more
                        except Inconclusive:
                            for q in live: q.kill()
                            raise
                if any(v["key"].startswith("hang") for v in self.vio):
                    for q in live: q.kill()
                    live = []
            self.runs.append(dict(exe=e["exe"], variant=e["variant"], shards=n, wall_s=round(time.time() - t, 1)))
            if any(v["key"] not in {k[1] for k in load_known() if k[0] == self.pid} for v in self.vio): break
    def replay(self, f):
        r = json.load(open(f)); self.seed, self.tier = r["seed"], r["tier"]
        self.build()
        e = next(x for x in self.spec["exes"] if x["exe"] == r["exe"])
        p = self.start(e, 0, 1, ["--replay", r["case"]], base=os.path.join(self.out, "run", "replay"))
        try: p.p.wait(RERUN_S * 2)
        except subprocess.TimeoutExpired: p.kill(); print("hang"); return 1
        print(open(p.base + ".log", errors="replace").read())
        vio = os.path.exists(p.base + ".json.vio") and os.path.getsize(p.base + ".json.vio") > 0
        print("reproduced" if p.p.returncode or vio else "not reproduced")
        return 1 if p.p.returncode or vio else 0
    def finish(self):
        known = [k for k in load_known() if k[0] == self.pid]
        new, seen_known, keys = [], set(), set()
        for v in self.vio:
            hit = next((k for k in known if k[1] == v["key"]), None)
            if hit: seen_known.add(hit)
            elif v["key"] not in keys: keys.add(v["key"]); new.append(v)
        for k in sorted(seen_known): print("KNOWN-FINDING: property=%s %s" % (self.pid, k[2]))
        rp = os.path.join(VERIF, "replay"); os.makedirs(rp, exist_ok=True)
        for v in new[:20]:
            f = os.path.join(rp, "%s-%s.json" % (self.pid, hashlib.sha1(v["key"].encode()).hexdigest()[:10]))
            json.dump(dict(property=self.pid, exe=v["exe"], case=v["case"], seed=self.seed, tier=self.tier, key=v["key"], what=v["what"]), open(f, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, f)); print("  %s: %s" % (v["key"], v["what"][:1500]))
        s = self.spec
        need = s.get("need", [])
        missing = [k for k in need if not any(c == k or c.endswith("." + k) for c in self.counters if self.counters[c])]
        if not new and missing and self.scale >= 1: raise Inconclusive("monitor observed nothing for: %s" % ", ".join(missing))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=s["level"], wall_s=round(time.time() - self.t0, 1), violations=len(new),
                  coverage=dict(evaluations=self.evals, distinct_nontrivial=self.distinct, rule=s["rule"], samples=self.samples[:12], exhaustive=False,
                                observed=self.counters, runs=self.runs, restarted_workers=self.restarts, build_s=round(self.build_s, 1)),
                  assumptions=s.get("assume", []))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        print("%s %s seed=%d: %d executions, %d distinct, %d violations, %.1f s (build %.1f)" % (self.pid, self.tier, self.seed, self.evals, self.distinct, len(new), time.time() - self.t0, self.build_s))
        return 1 if new else 0

def main(specs):
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1"))); ap.add_argument("--scale", type=float, default=1.0); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    c = Check(a.id, specs[a.id], a.tier, a.seed, scale=a.scale)
    try:
        if a.replay: return c.replay(a.replay)
        c.build(); c.run(); return c.finish()
    except B.BuildError as e:
        print("CHECK-ERROR build: %s" % e); return 2
    except Inconclusive as e:
        print("CHECK-INCONCLUSIVE %s" % e)
        if c.vio:
            return c.finish()
        return 2
    finally:
        if not a.keep: shutil.rmtree(c.out, ignore_errors=True)
