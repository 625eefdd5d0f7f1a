#!/usr/bin/env python3
"""check.py PROPERTY: decides one property (see DESIGN.md).

Environment: VERIF_SEED (default 1), VERIF_TIER (quick | thorough, default quick).
Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.
Exit 2: the machinery failed.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TLA = "/opt/veriftools/tla"
SPEC, BUILD, OUT = (os.path.join(HERE, d) for d in ("spec", "build", "out"))
HARNESS = os.path.join(HERE, "harness")
CONFORM = os.path.join(HARNESS, "target", "debug", "conform")

# pseudo-random experiments of the quick tier on the implementation (the others: DEFAULT)
DEFAULT = 150_000
CASES = {"C05": 120_000, "C08": 100_000, "C20": 80_000, "C21": 80_000, "C22": 80_000, "C23": 80_000, "C24": 60_000,
         "C25": 25_000, "C27": 80_000, "C28": 80_000, "C29": 100_000, "C30": 50_000, "C31": 120_000, "C32": 100_000, "C34": 100_000, "C36": 60_000}
# ... and on the specification itself (the others: a tenth)
DESIGN = {"C25": 800, "C27": 2_000, "C28": 1_000, "C30": 400}
THOROUGH = 25          # times as many in the thorough tier
CHANGED = 3            # times as many when the sources are not those of the baseline
SYSTEMS = {"elo": "elo", "fifa": "fifa", "dwz": "dwz", "ingo": "ingo", "egf": "egf", "uscf": "uscf", "glicko": "glicko",
           "glicko2": "glicko2", "sticko": "sticko", "glicko_boost": "gboost", "weng_lin": "wl", "trueskill": "ts"}
BASELINE = os.path.join(SPEC, "baseline.txt")


def die(msg):
    print(f"check: {msg}", file=sys.stderr)
    sys.exit(2)


def run(cmd, cwd, timeout, log, env=None):
    with open(log, "w") as f:
        try:
            return subprocess.run(cmd, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=env).returncode
        except subprocess.TimeoutExpired:
            return -1


def tail(path, n=25):
    with open(path, errors="replace") as f:
        return "".join(f.readlines()[-n:])


def build():
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    # overrides of the specification's primitive operators
    log = os.path.join(OUT, "javac.log")
    if run(["javac", "-cp", f"{TLA}/tla2tools.jar", "-d", BUILD] + sorted(glob.glob(f"{HERE}/java/*.java")), HERE, 300, log):
        die("javac failed\n" + tail(log))
    # the harness, always against the sources as they are now
    for d in glob.glob(f"{HARNESS}/target/debug/.fingerprint/skillratings-*") + glob.glob(f"{HARNESS}/target/debug/.fingerprint/conform-*"):
        shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(HARNESS, "target"))
    for v in ("RUSTFLAGS", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(v, None)
    log = os.path.join(OUT, "cargo.log")
    if run(["cargo", "build", "--offline", "--locked"], HARNESS, 800, log, env):
        die("building the harness failed\n" + tail(log, 60))


def sources():
    """A digest of what is not a comment, a test or white space, for every module of the library."""
    mods = {}
    for path in sorted(glob.glob(f"{REPO}/src/**/*.rs", recursive=True)):
        with open(path, errors="replace") as f:
            text = f.read()
        text = re.sub(r"#\[cfg\(test\)\]\s*mod .*", "", text, flags=re.S)
        text = re.sub(r"(?m)^\s*//.*$", "", text)
        mod = os.path.relpath(path, f"{REPO}/src").split(os.sep)[0].removesuffix(".rs")
        mods[mod] = mods.get(mod, "") + "\n" + "".join(text.split())
    return {m: hashlib.sha256(t.encode()).hexdigest()[:16] for m, t in mods.items()}


def changed():
    """The modules that differ from the baseline: only a hint where to spend the effort, never a verdict."""
    try:
        with open(BASELINE) as f:
            base = dict(line.split() for line in f)
    except (OSError, ValueError):
        return set()
    now = sources()
    return {m for m in set(base) | set(now) if base.get(m) != now.get(m)}


def findings():
    """The listed findings: id -> description, and the property each belongs to."""
    found = {}
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line)
            if m:
                found[m.group(2)] = (m.group(1), m.group(3).strip())
    return found


def tla(v):
    if isinstance(v, str):
        return '"' + v + '"'
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    return str(v)


def tlc(name, module, constants, seed, timeout, deadlock=False, dictionary=True, prepare=None):
    """Runs TLC on a module; returns (exit code, figures, directory)."""
    d = os.path.join(OUT, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if prepare:
        prepare(d)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS\n")
        for k, v in constants.items():
            f.write(f"  {k} = {tla(v)}\n")
        f.write(f"INVARIANTS Noted Holds\nCHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}\n")
    log = os.path.join(d, "tlc.log")
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx10g", f"-Dconform.bin={CONFORM}", f"-Dconform.seed={seed}",
           f"-Dconform.replay={d}/replay.json", f"-Dconform.stats={d}/stats.json",
           f"-Dconform.src={REPO + '/src' if dictionary else d}", f"-Dconform.literals={SPEC}/literals.txt",
           "-cp", f"{BUILD}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar", f"-DTLA-Library={SPEC}",
           "tlc2.TLC", "-noGenerateSpecTE", "-workers", "8", "-metadir", f"{d}/states", "-config", cfg,
           os.path.join(SPEC, module + ".tla")]
    env = {k: v for k, v in os.environ.items() if k not in ("JAVA_TOOL_OPTIONS", "_JAVA_OPTIONS", "JDK_JAVA_OPTIONS")}
    rc = run(cmd, d, timeout, log, env)
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    text = open(log, errors="replace").read()
    fig = {"states": 0, "generated": 0, "initial": 0, "calls": 0, "marks": {}, "samples": []}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
    if m:
        fig["generated"], fig["states"] = int(m[-1][0]), int(m[-1][1])
    m = re.findall(r"Finished computing initial states: (\d+)", text)
    if m:
        fig["initial"] = int(m[-1])
    try:
        with open(os.path.join(d, "stats.json")) as f:
            fig.update(json.load(f))
    except (OSError, ValueError):
        pass
    return rc, fig, d


def sample(s):
    try:
        return json.loads(s.replace("TRUE", "true").replace("FALSE", "false"))
    except ValueError:          # cut short
        return s


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            die(f"unknown VERIF_TIER {self.tier}")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.known = findings()
        self.changed = changed()
        self.focus = {SYSTEMS[m] for m in self.changed if m in SYSTEMS}
        if "VERIF_FOCUS" in os.environ:          # for trying it out
            self.changed = self.focus = set(os.environ["VERIF_FOCUS"].split(",")) - {""}
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}

    def tlc(self, name, *a, **k):
        return tlc(f"{self.prop}/{name}", *a, seed=self.seed, timeout=14400 if self.thorough else 700, **k)

    def design(self, module, constants):
        """The property on the specification itself (the laws answer the calls)."""
        rc, fig, d = self.tlc("design", module, dict(constants, Binding="model"), dictionary=False)
        if rc != 0:
            die(f"the property does not hold on the specification (TLC exit {rc}), see {d}\n" + tail(os.path.join(d, "tlc.log"), 40))
        self.cov["design_states"] = fig["states"]
        self.cov["design_experiments"] = fig["marks"]

    def conform(self, name, module, constants, **k):
        """The property on the real code."""
        rc, fig, d = self.tlc(name, module, constants, **k)
        replay = os.path.join(d, "replay.json")
        if rc == 11 and k.get("deadlock"):      # a recorded step that is no step of the league
            self.add(name, fig)
            self.violation(os.path.join(d, "tlc.log"))
        if rc != 0 and os.path.exists(replay):  # also when TLC could not find the rejected step a second time
            self.add(name, fig)
            self.violation(replay)
        if rc != 0:
            die(f"TLC ended with {rc}, see {d}\n" + tail(os.path.join(d, "tlc.log"), 40))
        self.add(name, fig)
        return fig

    def violation(self, replay):
        self.evidence(1)
        print(f"VIOLATION property={self.prop} replay={replay}")
        print(f"  (again: VERIF_SEED={self.seed} VERIF_TIER={self.tier} python3 {HERE}/check.py {self.prop})")
        sys.exit(1)

    def add(self, name, fig):
        c = self.cov
        c["states"] += fig["states"]
        c["transitions"] += fig["generated"] - fig["initial"]
        done = {k: v for k, v in fig["marks"].items() if k != "skipped" and not k.startswith("known:")}
        c["traces_validated_against_impl"] += sum(done.values())
        c["samples"] += [sample(s) for s in fig["samples"]]
        c[name] = {"calls_on_the_real_code": fig["calls"], "experiments": done, "nothing_to_test": fig["marks"].get("skipped", 0)}
        for k in fig["marks"]:
            if k.startswith("known:"):
                c.setdefault("known_findings_seen", {})[k[6:]] = fig["marks"][k]

    def evidence(self, violations=0):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": self.cov,
              "assumptions": ["the Float64 primitives (java/Float64.java) compute IEEE-754 binary64 arithmetic",
                              "the harness (harness/) passes arguments and results through unchanged",
                              "inputs range over the domains stated in DESIGN.md"],
              "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def run(self):
        p = self.prop
        listed = {k for k, v in self.known.items() if v[0] == p}
        bare = {"Prop": p, "KnownFindings": listed}
        base = dict(bare, Focus=self.focus)
        more = CHANGED if self.changed else 1
        if p == "C35":
            big = self.thorough
            self.design("Season", dict(bare, Focus=set(), Via="fn", Depth=2, Seasons=600 if big else 120, Length_=60 if big else 30))
            self.conform("league", "Season", dict(base, Binding="impl", Via="fn", Depth=3 if big else 2,
                                                  Seasons=24000 if big else 1200 * more, Length_=120 if big else 60))
            files, seasons, steps = (8, 960, 60) if big else (8, 60 * more, 40)

            def record(d):
                for k in range(1, files + 1):
                    with open(os.path.join(d, f"trace-{k}.ndjson"), "w") as f:
                        try:
                            rc = subprocess.run([CONFORM, "season", str(self.seed * 100 + k), str(seasons), str(steps)],
                                                stdout=f, timeout=2000 if big else 120).returncode
                        except subprocess.TimeoutExpired:      # it takes about a second: some call does not return
                            self.violation(f.name)
                        if rc:      # the program that plays the league ended early
                            self.violation(f.name)
            self.conform("traces", "Trace", dict(bare, Binding="impl", Via="trait", Files=files), deadlock=True, prepare=record)
        else:
            n = CASES.get(p, DEFAULT)
            m = DESIGN.get(p, n // 10)
            if self.thorough:
                n, m = n * THOROUGH, m * 10
            else:
                n *= more
            self.design("Check", dict(bare, Focus=set(), Cases=m, Lanes=64))
            self.conform("conformance", "Check", dict(base, Binding="impl", Cases=n, Lanes=64))
        for k in sorted(listed):
            if k in self.cov.get("known_findings_seen", {}):
                print(f"KNOWN-FINDING: property={p} {self.known[k][1]} [{k}]")
        if not self.cov["traces_validated_against_impl"]:
            die("nothing was tested")
        self.evidence()
        c = self.cov
        print(f"{p} held: {c['traces_validated_against_impl']} experiments on the real code, {c['states']} states, "
              f"{c['transitions']} transitions, {time.time() - self.t0:.0f} s")


def main():
    if len(sys.argv) != 2:
        die("usage: check.py PROPERTY | check.py --setup")
    if sys.argv[1] == "--baseline":
        with open(BASELINE, "w") as f:
            f.writelines(f"{m} {h}\n" for m, h in sorted(sources().items()))
        return
    build()
    if sys.argv[1] != "--setup":
        Check(sys.argv[1]).run()


if __name__ == "__main__":
    main()
