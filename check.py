#!/usr/bin/env python3
"""Decides one property of zkevm_opcode_defs:  check.py <property> [quick|thorough]

1. builds the conformance harness against /repo's current working tree;
2. lets TLC explore the design models of the property (spec/);
3. replays behaviours of the specification into the real code (data exported by TLC, TLC simulation walks);
4. lets TLC judge what the real code did (recorded calls and sessions against the trace specifications).

exit 0: held on everything explored; exit 1 + "VIOLATION property=.. replay=..": broken; exit 2: the check itself failed.
"""
import concurrent.futures, fcntl, itertools, json, os, random, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
LEVEL = "model_checking"


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, payload):
        super().__init__(what)
        self.what, self.payload = what, payload


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = tier == "thorough"
        self.work = os.path.join(BUILD, "work", f"{prop}-{os.getpid()}")
        os.makedirs(self.work, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
                    "design_models": [], "replayed_cases": 0, "replayed_by_call": {}, "recorded_events": 0,
                    "sessions": 0, "session_steps": 0, "spec_walks_replayed": 0, "spec_walk_steps": 0,
                    "trace_states": 0, "profiles": [], "symbolic": []}
        self.bin = None
        self.model = os.path.join(self.work, "model.json")
        self.n = itertools.count(1)

    def path(self, name):
        return os.path.join(self.work, f"{next(self.n):02d}-{name}")

    # ---- building ----
    def build(self, profile):
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, "lock"), "w") as f:
            fcntl.flock(f, fcntl.LOCK_EX)
            r = subprocess.run(["cargo", "build", "--offline", "--profile", profile, "--target-dir", TARGET],
                               cwd=os.path.join(ROOT, "harness"), capture_output=True, text=True, timeout=800)
            if r.returncode != 0:
                raise ToolError("the harness does not build against /repo:\n" + r.stderr[-6000:])
            # run copies, so that a later build cannot change what this run executes
            self.bin = {}
            for b in ("conformance", "pricing_generator"):
                d = os.path.join(self.work, f"{b}-{profile}")
                shutil.copy2(os.path.join(TARGET, profile, b), d)
                self.bin[b] = d
        self.cov["profiles"].append(profile)
        self.dict = os.path.join(self.work, "dict.txt")
        lits = set()
        for base, _, files in os.walk(os.path.join(REPO, "src")):
            for fn in files:
                if fn.endswith(".rs"):
                    with open(os.path.join(base, fn), errors="replace") as f:
                        for t in re.findall(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)", f.read()):
                            try:
                                lits.add(int(t.replace("_", ""), 0))
                            except ValueError:
                                pass
        with open(self.dict, "w") as f:
            f.writelines(f"{x}\n" for x in sorted(lits) if x < 2**64)

    def harness(self, *args, bin="conformance", cwd=None, timeout=None, parse=True):
        timeout = timeout or (7200 if self.deep else 420)
        cmd = [self.bin[bin]] + [str(a) for a in args]
        try:
            r = subprocess.run(cmd, cwd=cwd or self.work, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Violation(f"the code under test did not finish within {timeout} s", {"command": cmd[1:], "seed": self.seed})
        if r.returncode != 0:
            err = r.stderr[-4000:]
            if parse and ("harness:" in err or "Os {" in err) or r.returncode == -9:
                raise ToolError(f"harness failed ({r.returncode}): {' '.join(cmd)}\n{err}")
            raise Violation("the code under test aborted the conformance run", {"command": cmd[1:], "exit": r.returncode, "stderr": err})
        return json.loads(r.stdout.strip().splitlines()[-1]) if parse and r.stdout.strip() else {}

    # ---- TLC ----
    def tlc(self, module, cfg=None, env=None, args=(), timeout=None, workers=8):
        meta = self.path("tlc")
        cmd = ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", cfg or f"{module}.cfg", *args, f"{module}.tla"]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, capture_output=True, text=True,
                               timeout=timeout or (5400 if self.deep else 600))
        except subprocess.TimeoutExpired:
            raise ToolError(f"TLC timed out on {module}")
        shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r.returncode, out + r.stderr, gen, dist, time.time() - t

    def design(self, module, consts=None, label=None, safety=False):
        cfg = f"{module}.cfg"
        if consts:
            txt = open(os.path.join(SPEC, cfg)).read()
            if safety:
                txt = re.sub(r"(?m)^PROPERTIES .*$", "", txt)
            for k, v in consts.items():
                txt, n = re.subn(rf"(?m)(^|\s){k} (=|<-) .*$", lambda m: f"{m.group(1)}{k} = {v}", txt)
                if n != 1:
                    raise ToolError(f"constant {k} not found in {cfg}")
            cfg = self.path(f"{module}.cfg")
            open(cfg, "w").write(txt)
        code, out, gen, dist, dt = self.tlc(module, cfg)
        if code != 0 or "No error has been found" not in out:
            raise ToolError(f"design model {module} fails (exit {code}):\n{out[-4000:]}")
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["design_models"].append({"model": label or module, "constants": consts or {}, "distinct_states": dist, "states_generated": gen, "wall_s": round(dt, 1)})
        log(f"  design {module}: {dist} states, {dt:.1f} s")

    def apalache(self, module, init, inv, length, *opts):
        """A symbolic step of the specification, at full width."""
        d, t = self.path("apalache"), time.time()
        os.makedirs(d)
        cinit = list(opts) or (["--cinit=ConstInit"] if "ConstInit ==" in open(os.path.join(SPEC, f"{module}.tla")).read() else [])
        try:
            r = subprocess.run(["apalache-mc", "check", *cinit, f"--init={init}", f"--inv={inv}", f"--length={length}",
                                f"--out-dir={d}", os.path.join(SPEC, f"{module}.tla")], cwd=d, capture_output=True, text=True,
                               timeout=3600 if self.deep else 300)
        except subprocess.TimeoutExpired:
            raise ToolError(f"Apalache timed out on {module}")
        if r.returncode != 0 or "NoError" not in r.stdout:
            raise ToolError(f"Apalache fails on {module} ({init}, {inv}): exit {r.returncode}\n{(r.stdout + r.stderr)[-3000:]}")
        shutil.rmtree(d, ignore_errors=True)
        dt = time.time() - t
        self.cov["symbolic"].append({"model": module, "init": init, "invariant": inv, "length": length, "wall_s": round(dt, 1)})
        log(f"  apalache {module} {init} => {inv}: {dt:.1f} s")

    def symbolic(self, *runs):
        with concurrent.futures.ThreadPoolExecutor(3) as pool:
            list(pool.map(lambda a: self.apalache(*a), runs))

    def inductive(self, module, inv, step=(), parts=None):
        """Inv holds initially and is preserved by a step from any state satisfying it (conjunct by conjunct if parts are given)."""
        self.symbolic((module, "Init", inv, 0), *((module, "IndInit", i, 1) for i in (*(parts or (inv,)), *step)))

    def counters(self):
        self.symbolic(*(("Ind_Counters", init, inv, length, "--cinit=CConstInit", "--next=CNext")
                        for init, inv, length in (("CInit", "CInv", 0), ("CIndInit", "CInv", 1), ("CIndInit", "Fits", 0))))

    def export_model(self):
        code, out, *_ = self.tlc("Model", env={"OUT": self.model})
        if code != 0 or not os.path.exists(self.model):
            raise ToolError("model export failed:\n" + out[-3000:])

    @staticmethod
    def lines(path):
        with open(path) as f:
            return sum(1 for _ in f)

    def validate(self, module, trace, var, what):
        """TLC judges a recorded trace; a refused line is a violation."""
        n = self.lines(trace)
        if n == 0:
            return 0
        code, out, gen, dist, dt = self.tlc(module, env={"TRACE": trace})
        if code != 0 and not re.search(rf"(?m)^(/\\ )?{var} = \d+", out):
            # integers beyond TLC's range cannot be values the specification expects: clip them and look again
            txt = open(trace).read()
            clipped = re.sub(r"\d{10,}", lambda m: str(min(int(m.group()), 2147483647)), txt)
            if clipped != txt:
                trace = self.path("clipped.ndjson")
                open(trace, "w").write(clipped)
                code, out, gen, dist, dt = self.tlc(module, env={"TRACE": trace})
        if code == 0 and "No error has been found" in out:
            self.cov["trace_states"] += dist
            log(f"  {module}: {n} {what} accepted, {dist} states, {dt:.1f} s")
            return n
        hits = re.findall(rf"(?m)^(?:/\\ )?{var} = (\d+)", out)
        if hits and ("is violated" in out or "Evaluating invariant" in out):
            k = int(hits[-1])
            with open(trace) as f:
                line = next(l for i, l in enumerate(f, 1) if i == k)
            inv = re.findall(r"Invariant (\w+) is violated", out)
            raise Violation(f"{module}: the specification refuses what the real code did ({', '.join(inv) or 'undefined'})",
                            {"trace_spec": module, "refused": json.loads(line), "tlc": out[-3000:]})
        raise ToolError(f"TLC failed on {module} (exit {code}):\n{out[-4000:]}")

    def sample(self, path, k=2):
        with open(path) as f:
            ls = f.readlines()
        rnd = random.Random(self.seed)
        for l in rnd.sample(ls, min(k, len(ls))):
            if len(l) < 30000:
                self.cov["samples"].append(json.loads(l))

    # ---- bindings ----
    def record(self, judge=True):
        out = self.path("record.ndjson")
        n = self.harness("record", self.prop, self.tier, self.seed, self.dict, out, self.model)["events"]
        if n:
            self.cov["recorded_events"] += n
            self.sample(out)
            self.cov["traces_validated_against_impl"] += self.validate("TraceCalls", out, "tl", "recorded calls")

    def replay(self, scale, budget=None):
        bad, smp, t = self.path("bad.ndjson"), self.path("sample.ndjson"), time.time()
        s = self.harness("replay", self.prop, self.model, self.tier, self.seed, self.dict, scale, 200 if budget else 6000 if self.deep else 2000, bad, smp,
                         budget or (3000 if self.deep else 90))
        self.cov["replayed_cases"] += s["cases"]
        for k, v in s["by_call"].items():
            self.cov["replayed_by_call"][k] = self.cov["replayed_by_call"].get(k, 0) + v
        self.cov["replay_cut_short"] = self.cov.get("replay_cut_short", False) or s["cut_short"]
        log(f"  replay: {s['cases']} cases, {s['mismatches']} mismatches, {time.time() - t:.1f} s" + (" (cut short)" if s["cut_short"] else ""))
        if s["mismatches"]:
            self.validate("TraceCalls", bad, "tl", "mismatching calls")
            for l in open(bad):
                if not json.loads(l)["repeats"]:
                    raise Violation("the same call is answered differently at different times: once unlike the specification", {"refused": json.loads(l)})
            raise ToolError(f"replay reports mismatches which the specification accepts: {open(bad).readline()[:2000]}")
        self.sample(smp)
        self.cov["traces_validated_against_impl"] += self.validate("TraceCalls", smp, "tl", "sampled replay calls")

    def walks(self, module, num, depth):
        """Behaviours generated by TLC's simulator, as printed by the Gen_ modules."""
        # (workers of one simulation repeat each other's random choices, so several simulations with their own seeds)
        k, t = 8 if self.deep else 4, time.time()
        with concurrent.futures.ThreadPoolExecutor(k) as pool:
            rs = list(pool.map(lambda i: self.tlc(module, args=["-simulate", f"num={num // k}", "-depth", str(depth), "-seed", str(self.seed + 1000 * i)],
                                                  workers=1), range(k)))
        ws = sorted({json.loads(l)[5:] for r in rs for l in r[1].splitlines() if l.startswith('"WALK ')})
        if not ws:
            raise ToolError(f"{module} produced no behaviour (exit {rs[0][0]}):\n{rs[0][1][-3000:]}")
        dt = time.time() - t
        p = self.path("walks.ndjson")
        with open(p, "w") as f:
            f.writelines(w + "\n" for w in ws)
        log(f"  {module}: {len(ws)} behaviours, {dt:.1f} s")
        return p

    def sessions(self, kind, module, gen, num, depth):
        w, bad = self.walks(gen, num, depth), self.path("bad.ndjson")
        s = self.harness(f"{kind}-replay", w, bad)
        self.cov["spec_walks_replayed"] += s["walks"]
        self.cov["spec_walk_steps"] += s["steps"]
        if s["mismatches"]:
            self.validate(module, bad, "sess", "mismatching sessions")
            raise ToolError(f"session replay reports mismatches which the specification accepts: {open(bad).readline()[:2000]}")
        self.cov["traces_validated_against_impl"] += s["walks"]

    # ---- per property ----
    def run(self):
        p, deep = self.prop, self.deep
        if p in ("C01", "C02", "C03", "C11"):
            self.design("MC_Assembler", {"Steps": 2, "CodePool": "{0, 1, 24, 1084, 1085, 1093, 2047}", "ImmPool": "{0, 1, 65535}"} if deep else None)
        if p in ("C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C21"):
            self.design("IsaWalk")
        if p == "C06":
            self.design("Synthesis")
        if p in ("C08", "C23"):
            self.design("MC_Machine", {"InitialErgs": "{0, 3, 4, 5, 26, 60, 250, 330}", "MaxDepth": 4} if deep else None)
        if p in ("C14", "C16", "C17", "C18", "C19"):
            self.design("MC_AbiWords")
        if p == "C15":
            self.design("MC_Pointers", {"B": 5 if deep else 4})
            self.design("PtrBridge", {"B": 4 if deep else 3})
            self.inductive("Ind_Pointers32", "Inv")
        if p == "C23":
            self.inductive("Ind_Ergs", "Inv", ["Decreases"])
        if p in ("C21", "C23"):
            self.counters()
        if p in ("C12", "C13"):
            self.symbolic(("Ind_Circuits", "Init", "WInv", 0), ("Ind_Circuits", "IndInit", "WInv", 1), ("Ind_Circuits", "IndInit", "Safe", 0))
        if p in ("C01", "C02", "C03") and deep:
            self.apalache("Ind_Codec", "Init", "RoundTrip", 0)
        if p == "C20":
            self.design("MC_CodeMemory")
        if p == "C25":
            self.design("MC_Deploy", {"Accounts": '{"a", "b", "c"}'} if deep else None)
            self.design("MC_CodeMemory")
        if p == "C27":
            self.design("MC_Effects", {"Cycles": 6} if deep else {"Cycles": 5})
        if p == "C26":
            self.design("MC_Grants", {"Base": 2, "Depth": 4, "MaxCalls": 3} if deep else None)
            self.design("MC_Grants", {"Base": 3, "MaxCalls": 1}, "MC_Grants, wider words")
            self.design("GrantsBridge")
            if deep:
                self.inductive("Ind_Grants32", "Inv", ("Frozen",), parts=("TypeOK", "Granted", "Apart", "NoPeeking", "TouchedInGrant"))
            else:
                self.symbolic(("Ind_Grants32", "Init", "Inv", 0), ("Ind_Grants32", "IndInit", "TouchedInGrant", 1), ("Ind_Grants32", "IndInit", "Frozen", 1))
        if p == "C24":
            self.design("KeyedStore", {"Buckets": "{1, 2, 3}"} if deep else None)
        if p == "C22":
            self.design("LazyInit")
            if deep:
                self.design("LazyInit", {"MaxTouches": 2}, "LazyInit, two touches each")
                self.design("LazyInit", {"Threads": "{1, 2, 3}"}, "LazyInit, three threads (invariants)", safety=True)
        self.export_model()
        for profile in ("release", "plain"):
            light = profile == "plain" and not deep
            if light and p == "C22":
                break
            self.build(profile)
            self.record()
            if p in ("C01", "C02", "C03", "C04", "C11", "C14", "C15", "C16", "C17", "C18", "C20"):
                self.replay(600_000_000 if deep else 2_000_000 if light else 60_000_000, 10 if light else None)
            if light:
                break
            if p == "C15":
                out = self.path("ptr.ndjson")
                s = self.harness("ptr-record", self.seed, self.dict, 20000 if deep else 1500, 24, out)
                self.cov["sessions"] += s["sessions"]
                self.cov["session_steps"] += 24 * s["sessions"]
                self.sample(out, 1)
                self.cov["traces_validated_against_impl"] += self.validate("TracePtr", out, "sess", "recorded sessions")
                self.sessions("ptr", "TracePtr", "Gen_Pointers", 64000 if deep else 6000, 26)
            if p == "C23":
                out, one = self.path("machine.ndjson"), self.path("single.ndjson")
                progs = 60000 if deep else 3000
                s = self.harness("machine-record", self.model, self.seed, self.dict, progs, 40, out, one)
                self.cov["sessions"] += s["programs"] + s["single"]
                self.cov["session_steps"] += s["cycles"]
                self.sample(one, 1)
                self.cov["traces_validated_against_impl"] += self.validate("TraceMachine", one, "sess", "single-instruction sessions")
                # in slices: each session is an initial state
                with open(out) as f:
                    ls = f.readlines()
                for i in range(0, len(ls), 6000):
                    part = self.path("part.ndjson")
                    with open(part, "w") as f:
                        f.writelines(ls[i:i + 6000])
                    self.cov["traces_validated_against_impl"] += self.validate("TraceMachine", part, "sess", "recorded programs")
                self.sessions("machine", "TraceMachine", "Gen_Machine", 80000 if deep else 4800, 45)
            if p == "C13":
                scratch = self.path("generator")
                made = os.path.join(scratch, "src", "circuit_prices.rs")
                os.makedirs(os.path.dirname(made))
                # whatever the file held before: nothing, its own output, other prices, an empty file
                longer = "".join(f"pub const FORMER_PRICE_{i}: u32 = {i};\n" for i in range(4000))
                for before in (None, "same", longer, "", longer[:30]):
                    if before not in (None, "same"):
                        with open(made, "w") as f:
                            f.write(before)
                    self.harness(bin="pricing_generator", cwd=scratch, parse=False)
                    out = self.path("generated.ndjson")
                    n = self.harness("generated", made, out)["events"]
                    self.cov["recorded_events"] += n
                    self.sample(out)
                    self.cov["traces_validated_against_impl"] += self.validate("TraceCalls", out, "tl", "generated prices")
            if p == "C25":
                bad, smp, t = self.path("bad.ndjson"), self.path("deployments.ndjson"), time.time()
                s = self.harness("deploy-run", self.model, self.seed, self.dict, 20_000_000 if deep else 2_000_000, 400 if deep else 48,
                                 3000 if deep else 480, 1500 if deep else 60, bad, smp)
                self.cov["sessions"] += s["sessions"]
                self.cov["session_steps"] += s["steps"]
                log(f"  deployments: {s['sessions']} sessions, {s['steps']} steps, {s['mismatches']} mismatches, {time.time() - t:.1f} s")
                if s["mismatches"]:
                    self.validate("TraceDeploy", bad, "sess", "mismatching deployments")
                    raise ToolError(f"deployments are reported which the specification accepts: {open(bad).readline()[:2000]}")
                self.sample(smp, 1)
                self.cov["traces_validated_against_impl"] += self.validate("TraceDeploy", smp, "sess", "recorded deployments")
                self.sessions("deploy", "TraceDeploy", "Gen_Deploy", 8000 if deep else 320, 26)
            if p == "C26":
                bad, smp, t = self.path("bad.ndjson"), self.path("frames.ndjson"), time.time()
                s = self.harness("grants-run", self.model, self.seed, self.dict, 60_000_000 if deep else 6_000_000, 8000 if deep else 800,
                                 1500 if deep else 60, bad, smp)
                self.cov["sessions"] += s["sessions"]
                self.cov["session_steps"] += s["steps"]
                log(f"  frames: {s['sessions']} sessions, {s['steps']} steps, {s['mismatches']} mismatches, {time.time() - t:.1f} s")
                if s["mismatches"]:
                    self.validate("TraceGrants", bad, "sess", "mismatching sessions")
                    raise ToolError(f"sessions are reported which the specification accepts: {open(bad).readline()[:2000]}")
                self.sample(smp, 1)
                self.cov["traces_validated_against_impl"] += self.validate("TraceGrants", smp, "sess", "recorded sessions")
                self.sessions("grants", "TraceGrants", "Gen_Grants", 40000 if deep else 2400, 32)
            if p == "C27":
                bad, smp, t = self.path("bad.ndjson"), self.path("effects.ndjson"), time.time()
                s = self.harness("effects-run", self.model, self.seed, self.dict, 40_000_000 if deep else 4_000_000, 8000 if deep else 800,
                                 1200 if deep else 60, bad, smp)
                self.cov["sessions"] += s["sessions"]
                self.cov["session_steps"] += s["steps"]
                log(f"  effects: {s['sessions']} sessions, {s['steps']} steps, {s['mismatches']} mismatches, {time.time() - t:.1f} s")
                if s["mismatches"]:
                    self.validate("TraceEffects", bad, "sess", "mismatching histories")
                    raise ToolError(f"histories are reported which the specification accepts: {open(bad).readline()[:2000]}")
                self.sample(smp, 1)
                self.cov["traces_validated_against_impl"] += self.validate("TraceEffects", smp, "sess", "recorded histories")
                self.sessions("effects", "TraceEffects", "Gen_Effects", 24000 if deep else 1600, 32)
            if p == "C24":
                ev, bad, ss = self.path("values.ndjson"), self.path("bad.ndjson"), self.path("stores.ndjson")
                s = self.harness("values-run", self.model, self.seed, self.tier, self.dict, ev, bad, ss)
                self.cov["replayed_cases"] += s["pairs"]
                self.cov["recorded_events"] += s["events"]
                self.cov["sessions"] += s["sessions"]
                log(f"  values: {s['pairs']} pairs, {s['mismatches']} mismatches")
                if s["mismatches"]:
                    self.validate("TraceCalls", bad, "tl", "mismatching pairs")
                    raise ToolError(f"pairs are reported which the specification accepts: {open(bad).readline()[:2000]}")
                self.sample(ev)
                self.cov["traces_validated_against_impl"] += self.validate("TraceCalls", ev, "tl", "recorded pairs")
                self.cov["traces_validated_against_impl"] += self.validate("TraceStore", ss, "sess", "recorded stores")
            if p == "C22":
                ev, ss = self.path("lazy.ndjson"), self.path("lazy-sessions.ndjson")
                s = self.harness("lazy-run", self.seed, self.tier, self.work, ev, ss)
                self.cov["sessions"] += s["sessions"]
                self.cov["session_steps"] += s["steps"]
                self.cov["recorded_events"] += s["events"]
                self.sample(ev)
                self.cov["traces_validated_against_impl"] += self.validate("TraceLazy", ss, "ses", "sessions")
                self.cov["traces_validated_against_impl"] += self.validate("TraceCalls", ev, "tl", "values of shared cells")


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t = time.time()
    c = Check(prop, tier, seed)
    violations, code = 0, 0
    log(f"{prop} {tier} seed={seed}")
    try:
        c.run()
    except Violation as v:
        violations, code = 1, 1
        d = os.path.join(BUILD, "violations")
        os.makedirs(d, exist_ok=True)
        rp = os.path.join(d, f"{prop}-{tier}-{seed}.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "what": v.what, **v.payload}, f, indent=1)
        log(v.what)
        log(json.dumps(v.payload.get("refused", v.payload))[:1500])
        log(f"VIOLATION property={prop} replay={rp}")
    except (ToolError, subprocess.TimeoutExpired, OSError) as e:
        code = 2
        log(f"ERROR (check, not property): {e}")
    finally:
        shutil.rmtree(c.work, ignore_errors=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": c.cov,
                   "assumptions": ["TLC 1.8.0 and the Rust toolchain are correct",
                                   "the harness reports calls of the public interface faithfully",
                                   "sha2 0.10 from the local registry stands for the pinned git revision"],
                   "wall_s": round(time.time() - t, 1), "violations": violations}, f, indent=1)
    log(f"{prop}: exit {code}, {time.time() - t:.1f} s")
    return code


if __name__ == "__main__":
    sys.exit(main())
