"""Shared plumbing of the checks: building, TLC, the harness, evidence, verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, time
import tamper

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, summary, detail):
        super().__init__(summary)
        self.summary, self.detail = summary, detail


def sh(cmd, timeout, cwd=None, env=None, stdout=None):
    e = dict(os.environ)
    e.update(env or {})
    e["RUST_BACKTRACE"] = "0"
    return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, text=True, errors="replace",
                          stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE)


def fingerprint():
    """The contents of the crate's sources."""
    h = hashlib.sha256()
    for top in ("Cargo.toml", "src"):
        top = os.path.join(REPO, top)
        names = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs)
        for n in names:
            with open(n, "rb") as f:
                h.update(n.encode() + b"\0" + hashlib.sha256(f.read()).digest())
    return h.hexdigest()


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.dir = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.evals = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.n = 0
        self.falsified = set()

    def path(self, name):
        return os.path.join(self.dir, name)

    # ---------------------------------------------------------------- build
    def build(self, release=False):
        """dev: with the crate's serde feature; release: without it (C14 needs it in both)."""
        cmd = ["cargo", "build", "--offline", "--quiet"]
        wire = not release or self.prop == "C14"
        if release:
            cmd.append("--release")
        if not wire:
            cmd.append("--no-default-features")
        target = os.path.join(BUILD, "target" if wire else "target-bare")
        # cargo goes by modification times; a tree that was swapped for an older one must not pass for the built one
        stamp = os.path.join(target, "repo-" + ("release" if release else "dev"))
        now = fingerprint()
        if os.path.isdir(target) and (not os.path.exists(stamp) or open(stamp).read() != now):
            sh(["cargo", "clean", "--offline", "--quiet", "-p", "rangetools"] + (["--release"] if release else []), 300,
               cwd=HARNESS, env={"CARGO_TARGET_DIR": target})
        r = sh(cmd, 800, cwd=HARNESS, env={"CARGO_TARGET_DIR": target})
        if r.returncode == 0:
            with open(stamp, "w") as f:
                f.write(now)
        if r.returncode != 0:
            r2 = sh(["cargo", "build", "--offline", "--quiet", "--features", "serde"], 800, cwd=REPO,
                    env={"CARGO_TARGET_DIR": os.path.join(BUILD, "target-repo")})
            if r2.returncode == 0 and re.search(r"^error(\[E\d+\])?:", r.stderr, re.M) \
                    and "could not compile `rtconf`" in r.stderr:
                raise Violation("the public API no longer offers what the property quantifies over: "
                                "the crate compiles but its client does not", r.stderr[-4000:])
            raise ToolError("harness build failed:\n" + r.stderr[-4000:])
        return os.path.join(target, "release" if release else "debug", "rtconf")

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, label, timeout=800, expect_violation=False, env=None, simulate=None, workers=None,
            heap="6g"):
        """Run TLC on spec/<module>.tla with the given cfg text; returns its output path."""
        self.n += 1
        cfgp = self.path(f"{module}-{self.n}.cfg")
        with open(cfgp, "w") as f:
            f.write(cfg)
        outp = self.path(f"{module}-{self.n}.out")
        meta = self.path(f"meta-{self.n}")
        cmd = ["tlc", "-workers", str(workers or CPUS), "-metadir", meta, "-config", cfgp, "-noGenerateSpecTE",
               "-fp", "1", "-seed", str(self.seed)]
        if simulate:
            cmd += simulate
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = {"JAVA_TOOL_OPTIONS": f"-Xmx{heap} -Xss64m -XX:+UseParallelGC"}
        e.update(env or {})
        with open(outp, "w") as f:
            r = sh(cmd, timeout, cwd=SPEC, env=e, stdout=f)
        shutil.rmtree(meta, ignore_errors=True)
        text = tail(outp, 200000)
        m = None
        for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", text):
            pass
        gen, dist = (int(x.replace(",", "")) for x in m.groups()) if m else (0, 0)
        ok = "Model checking completed. No error has been found." in text or (simulate and "Error:" not in text)
        self.parts.append({"what": label, "module": module, "states_generated": gen, "distinct_states": dist})
        if expect_violation:
            return outp, ok, text
        if not ok:
            raise ToolError(f"TLC on {module} ({label}) did not complete cleanly:\n" + errpart(text) + r.stderr[-1000:])
        self.states += dist
        self.transitions += gen
        return outp

    def validate(self, module, cfg, label, trace, timeout=800, heap="6g", lies=None):
        """Trace validation: TLC must accept every recorded history."""
        chunks = [json.loads(l) for l in open(trace)]
        events = sum(len(ch["ev"]) for ch in chunks)
        outp, ok, text = self.tlc(module, cfg, label, timeout=timeout, expect_violation=True, heap=heap)
        part = self.parts[-1]
        part["histories"], part["events"] = len(chunks), events
        if ok:
            if part["distinct_states"] < len(chunks):
                raise ToolError(f"TLC saw only {part['distinct_states']} states for {len(chunks)} histories")
            self.states += part["distinct_states"]
            self.transitions += part["states_generated"]
            self.traces += len(chunks)
            for ch in chunks[:: max(1, len(chunks) // 2)][:2]:
                if len(self.samples) < 8 and ch["ev"]:
                    e = json.dumps(ch["ev"][len(ch["ev"]) // 2])
                    self.samples.append(f"{module} accepts ({ch.get('emb') or ch.get('ty') or ch.get('what') or ''}) {e[:160]}")
            if lies and module not in self.falsified:
                self.falsified.add(module)
                self.falsify(module, cfg, trace, tamper.falsify(chunks, lies, self.seed))
            return
        text = open(outp).read()
        m = re.search(r"Invariant Accepted is violated", text)
        if not m:
            raise ToolError(f"TLC on {module} ({label}) failed:\n" + errpart(text))
        last = text.rsplit("\nState ", 1)[-1]
        c = int(re.search(r"/\\ c = (\d+)", last).group(1))
        l = int(re.search(r"/\\ l = (\d+)", last).group(1))
        verdict = re.search(r"/\\ verdict = \"([^\"]*)\"", last)
        ch = chunks[c - 1]
        hist = {k: v for k, v in ch.items() if k != "ev"}
        hist["ev"] = ch["ev"][:l - 1]
        raise Violation(f"a recorded execution is not a behaviour of {module} "
                        f"(history {c}, event {l - 1}: {verdict.group(1) if verdict else '?'})",
                        {"trace": trace, "rejected_event": hist["ev"][-1] if hist["ev"] else None,
                         "history": hist, "last_state": last[:4000]})

    def prove(self, module, label):
        """TLAPS: the theorems of spec/<module>.tla, for any number of values (thorough tier)."""
        d = self.path("tlaps")
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(SPEC, module + ".tla"), d)
        r = sh(["tlapm", "--stretch", "5", "--cleanfp", "--cache-dir", os.path.join(d, "cache"), module + ".tla"], 1500, cwd=d)
        m = re.search(r"All (\d+) obligations? proved", r.stdout + r.stderr)
        if not m:
            raise ToolError(f"tlapm on {module}:\n" + (r.stdout + r.stderr)[-3000:])
        self.parts.append({"what": label, "module": module, "obligations_proved": int(m.group(1))})

    def falsify(self, module, cfg, trace, lies):
        """The specification must tell a falsified recording from a true one."""
        if not lies:
            return
        f = trace + ".lies"
        with open(f, "w") as out:
            for ch in lies:
                out.write(json.dumps(ch) + "\n")
        cfg = re.sub(r"INVARIANTS? .*", "INVARIANT Rejected", cfg.replace(trace, f))
        outp, ok, text = self.tlc(module, cfg, f"{len(lies)} falsified histories, each rejected", expect_violation=True)
        if not ok:
            raise ToolError(f"{module} accepts a falsified recording:\n" + errpart(text))

    # -------------------------------------------------------------- harness
    def harness(self, binary, args, timeout=600, label=None, env=None, allow_fail=False):
        """Run the harness; a crash (signal/abort) of the code under test is a violation."""
        self.n += 1
        out = self.path(f"harness-{self.n}.json")
        cmd = [binary] + [str(a) for a in args] + ["--out", out, "--seed", str(self.seed), "--tier", self.tier]
        limited = ["bash", "-c", 'ulimit -c 0; ulimit -v 20000000; exec "$@"', "x"] + cmd
        try:
            r = sh(limited, timeout, env=env)
        except subprocess.TimeoutExpired:
            raise ToolError(f"harness timed out: {cmd}")
        if not os.path.exists(out):
            sig = r.returncode < 0 or r.returncode in (134, 139, 137)
            if not sig:
                raise ToolError(f"harness exit {r.returncode} without a report: {cmd}\n{r.stderr[-3000:]}")
            # find the case that killed the process
            try:
                r2 = sh(limited, timeout, env={**(env or {}), "RTCONF_TRACE_CASES": "1"})
                cases = [l for l in r2.stderr.splitlines() if l.startswith("CASE ")][-8:]
            except subprocess.TimeoutExpired:
                cases = []
            raise Violation("the process was killed while executing the code under test (abort or stack overflow)",
                            {"cmd": cmd, "exit": r.returncode, "stderr": r.stderr[-2000:], "last_cases": cases})
        d = json.load(open(out))
        self.evals += d["evaluations"]
        if d["violation_count"]:
            raise Violation(f"{d['violation_count']} disagreement(s) between the specification and the code",
                            {"cmd": cmd, "violations": d["violations"]})
        self.samples += d["samples"][:3]
        self.parts.append({"what": label or args[0], "cases": d["cases"], "evaluations": d["evaluations"],
                           **({"extra": d["extra"]} if d["extra"] else {})})
        return d

    # ------------------------------------------------------------- evidence
    def evidence(self, violations):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "evaluations": self.evals,
                           "samples": self.samples[:8] or ["(stopped at the first violation)"], "parts": self.parts},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": violations}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def tail(path, n):
    with open(path, "rb") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - n))
        return f.read().decode(errors="replace")


def errpart(text):
    i = text.find("Error:")
    return text[i:i + 3000] if i >= 0 else text[-3000:]


def main(table):
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[1:]:
        if a.startswith("--tier="):
            tier = a[7:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    c = Check(prop, tier, seed)
    try:
        table[prop](c)
    except Violation as v:
        rp = os.path.join(BUILD, "replays")
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, f"{prop}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "summary": v.summary, "detail": v.detail}, f,
                      indent=1, default=str)
        c.evidence(1)
        print(v.summary)
        print(json.dumps(v.detail, default=str)[:3000])
        print(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    except (ToolError, subprocess.TimeoutExpired) as e:
        c.evidence(0)
        print(f"TOOL ERROR in check {prop}: {e}")
        sys.exit(2)
    c.evidence(0)
    print(f"OK property={prop} tier={tier} states={c.states} transitions={c.transitions} "
          f"traces={c.traces} evaluations={c.evals} wall={time.time()-c.t0:.1f}s")
    sys.exit(0)
