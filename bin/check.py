#!/usr/bin/env python3
"""Decide one property: build the harness against /repo, run the TLA+ stages, compare.

  check.py ID          tier and seed come from VERIF_TIER and VERIF_SEED
  check.py --setup     build everything a check needs

Exit 0 held, 1 violation (with a VIOLATION line), anything else: the check failed to decide.
"""
import fcntl, fnmatch, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
BIN = os.path.join(TARGET, "debug", "cgarx")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
EVID = os.path.join(VERIF, "evidence")
BATCH = 60000
CHUNKS = 64

sys.path.insert(0, os.path.join(VERIF, "bin"))


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "Cargo.lock", "build.rs")]
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    hdir = os.path.join(VERIF, "harness")
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, ".repo-hash")
        want = tree_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have != want:
            # file times in copied trees are not to be trusted: rebuild on any content change
            if os.path.exists(stamp):
                os.unlink(stamp)
            sh(["cargo", "clean", "--offline", "-p", "cgar", "-p", "cgarx"], cwd=hdir, env=env)
        r = sh(["cargo", "build", "--offline", "--locked"], cwd=hdir, env=env, timeout=1500)
        if r.returncode != 0:
            raise ToolError("harness build failed:\n" + r.stdout[-4000:])
        with open(stamp, "w") as f:
            f.write(want)


# ----------------------------------------------------------------- TLC stages
STATES = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found", re.M)


def tlc(module, cfg, work, env=None, extra=(), timeout=840, heap="6g"):
    meta = tempfile.mkdtemp(dir=work)
    e = dict(os.environ, **(env or {}))
    cmd = ["timeout", str(int(timeout)), "tlc", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg]
    if "-workers" not in extra:
        cmd += ["-workers", "8"]
    cmd += list(extra) + [module + ".tla"]
    e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m -XX:+UseParallelGC" % heap
    r = sh(cmd, cwd=SPEC, env=e)
    shutil.rmtree(meta, ignore_errors=True)
    m = STATES.search(r.stdout)
    n = [int(x.replace(",", "")) for x in m.groups()] if m else [0, 0]
    m = re.search(r"Finished computing initial states: ([\d,]+) distinct", r.stdout)
    n[0] -= int(m.group(1).replace(",", "")) if m and n[0] else 0  # transitions, not states
    return r.returncode, r.stdout, n


def cap_memory():
    """Runaway allocation in the code under test must end the harness, not the machine."""
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))


# what TLC says when an expression has no value, as opposed to running out of memory or time
UNJUDGED = re.compile(r"Error: (Evaluating|Attempted to|In evaluation|Overflow when|The (first|second) argument of|The division)|Attempted to (apply|compare|check|select|divide|access)|overflow|division by zero", re.I)


class Run:
    def __init__(self, pid, prop, tier, seed):
        self.pid, self.prop, self.tier, self.seed = pid, prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="vcheck-%s-" % pid)
        self.states = self.transitions = self.traces = self.laws = 0
        self.samples, self.viol, self.stage_log = [], [], []

    def q(self, st, name, default=None):
        v = st.get(name, default)
        if isinstance(v, dict) and "quick" in v:
            v = v[self.tier]
        return v

    def mc(self, st):
        """Exhaustive check of the specification itself."""
        rc, out, (gen, dist) = tlc(st["module"], self.q(st, "cfg"), self.work)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("the specification violates its own laws (%s):\n%s" % (st["module"], out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.stage_log.append({"stage": "model", "module": st["module"], "cfg": self.q(st, "cfg"), "distinct_states": dist, "transitions": gen})

    def gen(self, st):
        """Behaviours of the specification, written out for replay."""
        out_file = os.path.join(self.work, st["out"])
        env = {"GEN_SEED": str(self.seed)}
        extra = []
        if st.get("simulate"):
            num = self.q(st, "num")
            extra = ["-workers", "1", "-simulate", "num=%d" % num, "-depth", str(self.q(st, "depth")), "-seed", str(self.seed)]
        rc, out, (gen, dist) = tlc(st["module"], self.q(st, "cfg"), self.work, env=env, extra=extra)
        if rc != 0 and not st.get("simulate"):
            raise ToolError("behaviour generation failed (%s):\n%s" % (st["module"], out[-3000:]))
        if "Error:" in out:
            raise ToolError("behaviour generation failed (%s):\n%s" % (st["module"], out[-3000:]))
        got = list(dict.fromkeys(json.loads(line)[10:] for line in out.splitlines() if line.startswith('"BEHAVIOUR ')))
        if not st.get("simulate"):
            got.sort()  # breadth-first workers print in any order
        n = len(got)
        with open(out_file, "w") as f:
            f.writelines(t + "\n" for t in got)
        if n == 0:
            raise ToolError("no behaviours generated by " + st["module"] + "\n" + out[-2000:])
        if st.get("simulate"):
            m = re.findall(r"(\d[\d,]*) states checked", out) or re.findall(r"states generated: *([\d,]+)", out)
            gen = int(m[-1].replace(",", "")) if m else 0
        self.states += dist
        self.transitions += gen
        self.stage_log.append({"stage": "generate", "module": st["module"], "cfg": self.q(st, "cfg"), "behaviours": n, "distinct_states": dist, "transitions": gen})

    def harness(self, st, out):
        cmd = [BIN, st["domain"], "--seed", str(self.seed), "--tier", self.tier, "--out", out]
        if st.get("in"):
            cmd += ["--in", os.path.join(self.work, st["in"])]
        env = dict(os.environ)
        env["RUST_BACKTRACE"] = "0"
        limit = self.q(st, "limit", 700)
        cwd = os.path.join(self.work, "cwd")
        os.makedirs(cwd, exist_ok=True)
        try:
            r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit, preexec_fn=cap_memory)
        except subprocess.TimeoutExpired:
            raise ToolError("harness domain %s exceeded %ss" % (st["domain"], limit))
        if r.returncode == 77:
            with open(out + ".hang") as f:
                self.violation(st, {"case": f.read()}, ["no-return"])
            return False
        if r.returncode < 0 or r.returncode in (134, 139):
            env["TRACE_CASES"] = "1"
            try:
                r2 = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=limit, preexec_fn=cap_memory)
            except subprocess.TimeoutExpired:
                raise ToolError("harness crashed, and the traced rerun timed out")
            if r2.returncode < 0 or r2.returncode in (134, 139):
                cur = open(out + ".current").read() if os.path.exists(out + ".current") else ""
                self.violation(st, {"case": cur, "stderr": r2.stderr[-500:]}, ["crash"])
                return False
            raise ToolError("harness crashed once (%d): %s" % (r.returncode, r.stderr[-1000:]))
        if r.returncode != 0:
            raise ToolError("harness domain %s failed (%d): %s" % (st["domain"], r.returncode, r.stderr[-2000:]))
        return True

    def conf(self, st):
        """Recorded calls of the implementation, each judged by the specification."""
        out = os.path.join(self.work, st["domain"] + ".ndjson")
        if not self.harness(st, out):
            return
        with open(out) as f:
            lines = f.read().splitlines()
        if not lines:
            raise ToolError("domain %s recorded nothing" % st["domain"])
        bad = 0
        batch = self.q(st, "batch", BATCH)
        for b in range(0, len(lines), batch):
            part = lines[b : b + batch]
            pf = os.path.join(self.work, "part.ndjson")
            with open(pf, "w") as f:
                f.write("\n".join(part) + "\n")
            judge = lambda: tlc(st["module"], st.get("cfg", st["module"] + ".cfg"), self.work, env={"CASES": pf}, heap="8g")
            rc, o, (gen, dist) = judge()
            odd = 0
            while UNJUDGED.search(o) and odd < 3:
                # a recorded value the specification has no meaning for, such as a fraction without denominator
                odd += 1
                at = self.unjudged(o, len(part))
                case = part.pop(at)
                with open(pf, "w") as f:
                    f.write(case + "\n")
                if not UNJUDGED.search(judge()[1]):
                    raise ToolError("conformance run failed (%s):\n%s" % (st["module"], o[-3000:]))
                bad += 1
                self.violation(st, {"case": case}, ["no-meaning"])
                with open(pf, "w") as f:
                    f.write("\n".join(part) + "\n")
                rc, o, (gen, dist) = judge()
            if odd and UNJUDGED.search(o):
                break
            if rc != 0 or "No error has been found" not in o:
                raise ToolError("conformance run failed (%s):\n%s" % (st["module"], o[-3000:]))
            if dist != len(part) + CHUNKS:
                raise ToolError("conformance run judged %d of %d recorded calls" % (dist - CHUNKS, len(part)))
            for line in o.splitlines():
                if line.startswith('"NONCONFORMING '):
                    i, errs = json.loads(json.loads(line)[14:])
                    errs = [e for e in errs if e == "panic" or self.mine(st, e)]
                    if errs:
                        bad += 1
                        self.violation(st, {"case": part[i - 1]}, errs)
        self.traces += len(lines)
        step = max(1, len(lines) // 3)
        for s in lines[:: step][:3]:
            try:
                self.samples.append(json.loads(s) if len(s) < 1500 else s[:1500])
            except ValueError:
                self.samples.append(s[:1500])
        kinds = {}
        for l in lines:
            try:
                k = json.loads(l).get("k", "?")
            except ValueError:
                k = "?"
            kinds[k] = kinds.get(k, 0) + 1
        self.stage_log.append({"stage": "conform", "domain": st["domain"], "module": st["module"], "recorded": len(lines), "nonconforming": bad, "kinds": kinds})

    def unjudged(self, out, n):
        """Index of the recorded call that TLC was judging when an evaluation failed."""
        c, p = re.findall(r"chunk = (\d+)", out), re.findall(r"pos = (\d+)", out)
        i = int(p[-1]) * CHUNKS + int(c[-1]) if c and p else n
        if i >= n:
            raise ToolError("conformance run failed:\n" + out[-3000:])
        return i

    def mine(self, st, clause):
        c = st.get("clauses")
        if c is None:
            return True
        return any(fnmatch.fnmatchcase(clause, x) for x in c)

    def violation(self, st, info, errs):
        self.viol.append((st["domain"], info, sorted(errs)))

    # --------------------------------------------------------------- verdict
    def known(self):
        """known: property=ID domain=D clause=C match=<substring of the recorded call> :: what fails"""
        res = []
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r"known: property=(\S+) domain=(\S+) clause=(\S+) match=(.*?) :: (.*)$", line.strip())
                if m and m.group(1) == self.pid:
                    res.append(m.groups()[1:])
        return res

    def finish(self, t0):
        known = self.known()
        for k in known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k[3]))
        fresh = []
        suppressed = 0
        for dom, info, errs in self.viol:
            left = []
            for e in errs:
                if any(k[0] == dom and k[1] == e and k[2] in info.get("case", "") for k in known):
                    suppressed += 1
                else:
                    left.append(e)
            if left:
                fresh.append((dom, info, left))
        os.makedirs(EVID, exist_ok=True)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.prop.get("level", "model_checking"),
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples[:8],
                "stages": self.stage_log,
                "known_findings_seen": suppressed,
            },
            "assumptions": self.prop.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": len(fresh),
        }
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        if fresh:
            rp = os.path.join(EVID, "replay-%s.json" % self.pid)
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "total": len(fresh),
                           "violations": [{"domain": d, "clauses": e, **i} for d, i, e in fresh[:50]]}, f, indent=1)
            d, i, e = fresh[0]
            print("%d recorded calls do not conform; first: domain=%s clauses=%s case=%s" % (len(fresh), d, ",".join(e), i.get("case", "")[:800]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs" % (self.pid, self.tier, self.states, self.transitions, self.traces, time.time() - t0))
        return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "--setup":
        build()
        return 0
    from plan import PLAN

    pid = sys.argv[1]
    prop = PLAN[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    run = None
    try:
        build()
        run = Run(pid, prop, tier, seed)
        for st in prop["stages"]:
            if st.get("tier") and st["tier"] != tier:
                continue
            {"mc": run.mc, "gen": run.gen, "conf": run.conf}[st["do"]](st)
        return run.finish(t0)
    except ToolError as e:
        print("ERROR property=%s %s" % (pid, e))
    except subprocess.TimeoutExpired as e:
        print("ERROR property=%s timeout %s" % (pid, e))
    if run:
        shutil.rmtree(run.work, ignore_errors=True)
    return 2


if __name__ == "__main__":
    sys.exit(main())
