#!/usr/bin/env python3
"""Runs the check of one property:  tools/check.py P07 [quick|thorough]

1. builds the harness against /repo's working tree,
2. runs TLC on the specification (the machines of the property) and pipes every state it emits into the
   harness, which performs the operation on the library and compares the outcome with the specification's,
3. records random executions of the library and lets TLC validate them against the specification (Trace),
4. prints VIOLATION / KNOWN-FINDING lines and writes evidence/<property>.json.
Exit: 0 held, 1 violation, 2 the check itself failed."""
import json, os, re, shutil, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from machines import MACHINES

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def die(msg):
    print("TOOL-ERROR " + msg, flush=True)
    sys.exit(2)


# parts of the harness which consist of declarations only (derived types, macro calls): when one of them no longer
# compiles while the rest does, the library no longer accepts these declarations, and their properties are violated
PARTS = {"macros": (["P23"], "the constants declared with the macros no longer compile"),
         "derived": (["P18", "P19"], "the types declared with the derive macros no longer compile")}


def build():
    """the harness, and the parts of it which do not compile any more"""
    env = dict(os.environ, RUSTUP_TOOLCHAIN="1.95.0", CARGO_NET_OFFLINE="true")
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTFLAGS", None)
    out = ""
    for lost in ([], ["macros"], ["derived"], ["derived", "macros"]):
        sel = ["--no-default-features", "--features", ",".join(["std"] + [x for x in PARTS if x not in lost])] if lost else []
        r = subprocess.run(["cargo", "build", "--offline", "--quiet"] + sel, cwd=os.path.join(ROOT, "harness"), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0:
            return os.path.join(ROOT, "harness/target/debug/harness"), lost, out
        out = out or r.stdout
    die("the harness does not build:\n" + out[-4000:])


def tlc_cmd(module, cfg, meta, seed):
    return ["java", "-XX:+UseParallelGC", "-Xmx12g", "-Xss64m", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-workers", "8", "-seed", str(seed),
            "-metadir", meta, "-config", cfg, module + ".tla"]


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = os.path.join(ROOT, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.replayed = self.validated = 0
        self.samples, self.known, self.violations, self.ops, self.machines = [], {}, [], {}, []

    def cfg(self, mach, d):
        t = open(os.path.join(SPEC, mach["cfg"])).read()
        sub = dict(PROP=self.prop, TIER=self.tier, SEED=str(self.seed), FILE=os.path.join(d, "trace.ndjson"))
        for k, v in sub.items():
            t = t.replace("@%s@" % k, v)
        p = os.path.join(d, mach["module"] + ".cfg")
        open(p, "w").write(t)
        return p

    def machine(self, harness, mach, known):
        name = mach.get("name", mach["module"])
        d = os.path.join(self.dir, name)
        os.makedirs(d)
        if mach.get("record"):
            # record executions of the library
            tr = os.path.join(d, "trace.ndjson")
            r = subprocess.run([harness, "record", d, mach["record"], str(self.seed), self.tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 2:
                die("recording failed: " + r.stdout)
            if r.returncode != 0:
                self.crash(d, r.returncode, harness)
                return
        cmd = tlc_cmd(mach["module"], self.cfg(mach, d), os.path.join(d, "md"), self.seed)
        with open(os.path.join(d, "tlc.err"), "w") as err:
            tlc = subprocess.Popen(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=err)
            h = subprocess.Popen([harness, "replay", d, ",".join(known) or "-"], stdin=tlc.stdout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            tlc.stdout.close()
            out, _ = h.communicate()
            if h.returncode not in (0, 1):
                tlc.kill()
            trc = tlc.wait()
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        if h.returncode == 2:
            die("harness: " + out)
        if h.returncode not in (0, 1):
            self.crash(d, h.returncode, harness)
            return
        log = open(os.path.join(d, "tlc.log"), errors="replace").read()
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", log)
        ok = trc == 0 and "No error has been found" in log and m
        if not ok:
            rej = re.search(r"Invariant (\w+) is violated", log)
            if mach.get("record") and rej:
                # a recorded execution that the specification does not allow
                self.rejected(d, log)
            else:
                die("TLC failed on %s (exit %s):\n%s" % (name, trc, log[-3000:] + open(os.path.join(d, "tlc.err")).read()[-1000:]))
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        n = 0
        for line in open(os.path.join(d, "summary")):
            f = line.rstrip("\n").split(" ", 1)
            if f[0] == "total":
                n = int(f[1])
                self.replayed += n
            elif f[0] == "op":
                x = f[1].split()
                a = self.ops.setdefault(x[0], [0] * 5)
                for i in range(5):
                    a[i] += int(x[1 + i])
            elif f[0] == "known":
                k, c, ex = f[1].split(" ", 2)
                o = self.known.get(k, (0, ex))
                self.known[k] = (o[0] + int(c), o[1])
            elif f[0] == "sample":
                if len(self.samples) < 12:
                    self.samples.append(f[1])
        rec = 0
        if mach.get("record"):
            rec = sum(1 for _ in open(os.path.join(d, "trace.ndjson")))
            self.validated += rec
            with open(os.path.join(d, "trace.ndjson")) as t:
                self.samples += ["recorded " + next(t, "").strip()[:300]]
        if mach.get("emits", True) and n == 0 and not mach.get("record"):
            die("machine %s emitted nothing" % name)
        self.machines.append(dict(machine=name, states=int(m[-1][1]) if m else 0, transitions=int(m[-1][0]) if m else 0, vectors_replayed=n, executions_validated=rec))
        for line in open(os.path.join(d, "violations")):
            self.violations.append(dict(machine=name, what=line.rstrip("\n")))

    def crash(self, d, rc, harness):
        """the process under test died or hangs: which operation did it, on what?"""
        what = "does not return" if rc == 3 else "aborts the process (status %d)" % rc
        found, main_op, held = [], "", []
        for j in sorted(f for f in os.listdir(d) if f.startswith("journal")):
            cur = open(os.path.join(d, j), "rb").read().split(b"\n")[0].decode(errors="replace")
            if j == "journal":
                main_op = cur
                continue
            # a worker had this input, and one of the operations of its group may be the culprit
            held.append("an operation on one of: " + cur[:300])
            try:
                r = subprocess.run([harness, "try", d, cur], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
                dead, out = r.returncode != 0, r.stdout
            except subprocess.TimeoutExpired as e:
                dead, out = True, e.stdout or b""
            if dead:
                found.append("%s %s" % (out.decode().strip().split("\n")[-1], cur))
        for x in found or ([main_op] if main_op.strip() else held):
            self.violations.append(dict(machine="", what="%s %s" % (x, what)))

    def rejected(self, d, log):
        m = re.findall(r"REJECTED.*", log)
        for x in (m or ["a recorded execution is not a behaviour of the specification"])[:50]:
            self.violations.append(dict(machine="Trace", what=x.replace("\\", "")))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    findings = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
    mine = {f["id"]: f for f in findings if prop in f["properties"]}
    harness, lost, errors = build()
    t1 = time.time()
    run = Run(prop, tier, seed)
    for part in lost:
        if prop in PARTS[part][0]:
            run.violations.append(dict(machine="", what=PARTS[part][1] + ": " + " ".join(re.findall(r"^error.*", errors, re.M)[:3])))
    for mach in [] if run.violations else MACHINES[prop]:
        if mach.get("tier") and mach["tier"] != tier:
            continue
        run.machine(harness, mach, sorted(mine))
        if run.violations:
            break
    wall = round(time.time() - t0, 1)
    for k, (n, ex) in sorted(run.known.items()):
        if k in mine:
            print("KNOWN-FINDING: property=%s %s %s (%d cases, e.g. %s)" % (prop, k, mine[k]["what"], n, ex))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=wall,
              coverage=dict(states=run.states, transitions=run.transitions, traces_validated_against_impl=run.replayed + run.validated,
                            vectors_replayed_on_the_code=run.replayed, recorded_executions_validated_by_tlc=run.validated,
                            samples=run.samples, machines=run.machines, build_s=round(t1 - t0, 1),
                            operations={k: dict(zip(("total", "ok", "error", "incomplete", "other"), v)) for k, v in sorted(run.ops.items())},
                            known_findings_seen={k: n for k, (n, _) in run.known.items()},
                            violations=len(run.violations)))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    if run.violations:
        rp = os.path.join(run.dir, "violations.txt")
        with open(rp, "w") as f:
            for v in run.violations:
                f.write("%s %s\n" % (v["machine"], v["what"]))
            f.write("# replay one case with: harness/target/debug/harness eval <operation> <hex octets>\n")
        for v in run.violations[:10]:
            print("  " + v["what"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("%s %s: held on %d states, %d cases checked on the code, %.0f s" % (prop, tier, run.states, run.replayed + run.validated, wall))


main()
