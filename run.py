#!/usr/bin/env python3
"""python3 run.py ID [--tier quick|thorough] [--replay FILE] [--keep]

Builds the harness of property ID against /repo's current working tree in a scratch directory, runs it,
rewrites evidence/ID.json and prints VIOLATION / KNOWN-FINDING lines. Exit 0: held; 1: violated; 2: error."""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS  # noqa: E402

MISSING = "gitlab.mpi-sws.org/cld/tracing/tracing-framework-go"


def log(*a):
    print("[run]", *a, file=sys.stderr, flush=True)


class Build:
    def __init__(self, scratch):
        self.s = scratch
        self.env = dict(os.environ)
        for k in ("GOFLAGS", "GOWORK"):
            self.env.pop(k, None)
        self.env.update(GOTOOLCHAIN="local", GOPROXY="off", CGO_ENABLED="1", GONOSUMDB="*", GOSUMDB="off",
                        HOME=os.environ.get("HOME", "/root"),
                        GOWORK=os.path.join(scratch, "go.work"), VERIF_DIR=VERIF, REPO_DIR=REPO, VERIF_SCRATCH=scratch)
        self.env.setdefault("GOCACHE", "/root/.cache/go-build")
        self.env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
        self.overlay = os.path.join(scratch, "overlay0.json")

    def workspace(self):
        """go.work over /repo's modules and the harness, and an overlay that drops the unfetchable requirement."""
        uses = []
        with open(os.path.join(REPO, "go.work")) as f:
            m = re.search(r"use\s*\((.*?)\)", f.read(), re.S)
        for line in m.group(1).splitlines():
            line = line.split("//")[0].strip()
            if line and line != "./examples/leaf/wiring":
                uses.append(os.path.normpath(os.path.join(REPO, line)))
        extra = [os.path.join(VERIF, "harness")]
        wf = os.path.join(VERIF, "workflows")
        if os.path.isdir(wf):
            extra += [os.path.join(wf, d) for d in sorted(os.listdir(wf)) if os.path.exists(os.path.join(wf, d, "go.mod"))]
        st = os.path.join(VERIF, "stubs")
        extra += [os.path.join(st, d) for d in sorted(os.listdir(st)) if os.path.exists(os.path.join(st, d, "go.mod"))]
        with open(os.path.join(self.s, "go.work"), "w") as f:
            f.write("go 1.27\n\nuse (\n" + "".join("\t%s\n" % u for u in uses + extra) + ")\n")
        sumf = os.path.join(REPO, "go.work.sum")
        if os.path.exists(sumf):
            shutil.copy(sumf, os.path.join(self.s, "go.work.sum"))
        repl = {}
        for u in uses:
            src = os.path.join(u, "go.mod")
            text = open(src).read()
            new = re.sub(r"(?m)^\s*(?:require\s+)?" + re.escape(MISSING) + r"\s.*\n", "", text)
            if new != text:
                dst = os.path.join(self.s, os.path.relpath(src, REPO).replace("/", "_"))
                open(dst, "w").write(new)
                repl[src] = dst
        json.dump({"Replace": repl}, open(self.overlay, "w"))
        self.env["GOFLAGS"] = "-overlay=" + self.overlay
        self.env["VERIF_OVERLAY"] = self.overlay

    def grpc(self):
        """Makes gRPC and the protocol buffer compilers available: the module cache has the sources of gRPC, but not all
        that its modules require, so copies without requirements join the workspace; protoc-gen-go comes from the
        protobuf module and protoc-gen-go-grpc is harness/cmd/protoc-gen-go-grpc."""
        mc = self.env["GOMODCACHE"]
        third = os.path.join(self.s, "third")

        def copy(name, module, src, subs, goversion):
            dst = os.path.join(third, name)
            for sub in subs:
                shutil.copytree(os.path.join(src, sub), os.path.join(dst, sub), copy_function=shutil.copyfile)
            for f in os.listdir(src):
                if f.endswith(".go"):
                    shutil.copyfile(os.path.join(src, f), os.path.join(dst, f))
            for d, _, _ in os.walk(dst):
                os.chmod(d, 0o755)
            with open(os.path.join(dst, "go.mod"), "w") as f:
                f.write("module %s\n\ngo %s\n" % (module, goversion))
            for d, _, fs in os.walk(dst):
                if d != dst and "go.mod" in fs:
                    os.remove(os.path.join(d, "go.mod"))
            return dst

        g = os.path.join(mc, "google.golang.org/grpc@v1.38.0")
        skip = {"examples", "interop", "benchmark", "xds", "security", "test", "stress", "cmd"}
        uses = [
            copy("grpc", "google.golang.org/grpc", g, [d for d in sorted(os.listdir(g)) if os.path.isdir(os.path.join(g, d)) and d not in skip and not d.startswith(".")], "1.19"),
            copy("net", "golang.org/x/net", os.path.join(mc, "golang.org/x/net@v0.61.0"), ["http2", "trace", "internal", "idna", "http", "context"], "1.25"),
            copy("rpc", "google.golang.org/genproto/googleapis/rpc", os.path.join(mc, "google.golang.org/genproto@v0.0.0-20210602131652-f16073e35f0c/googleapis/rpc"),
                 ["status", "code", "errdetails"], "1.19"),
        ]
        work = open(os.path.join(self.s, "go.work")).read()
        with open(os.path.join(self.s, "go.work"), "w") as f:
            f.write(work.replace("use (\n", "use (\n" + "".join("\t%s\n" % u for u in uses), 1))
        bindir = os.path.join(self.s, "bin")
        os.makedirs(bindir, exist_ok=True)
        for name, pkg in (("protoc-gen-go", "google.golang.org/protobuf/cmd/protoc-gen-go"), ("protoc-gen-go-grpc", "./cmd/protoc-gen-go-grpc")):
            r = self.run(["go", "build", "-o", os.path.join(bindir, name), pkg], cwd=os.path.join(VERIF, "harness"))
            if r.returncode != 0:
                return False
        self.env["PATH"] = bindir + ":" + self.env["PATH"]
        return True

    def generate(self, name):
        """Runs the generator harness/gen/NAME, adds the generated processes that compile to the workspace, and
        writes the package verif.local/gen that lists them (and what went wrong with the others)."""
        out = os.path.join(self.s, "gen")
        os.makedirs(out, exist_ok=True)
        r = self.run(["go", "run", "./gen/" + name, out], cwd=os.path.join(VERIF, "harness"), stdout=subprocess.PIPE,
                     stderr=subprocess.STDOUT, text=True, errors="replace")
        try:
            info = json.load(open(os.path.join(out, "gen.json")))
        except OSError:
            log(r.stdout[-6000:])
            return False
        names, failed = info["Names"], info["Failed"]
        good = [n for n in names if n not in failed]
        mods = os.path.join(out, "mods")
        idx = os.path.join(out, "index")
        os.makedirs(idx, exist_ok=True)
        with open(os.path.join(idx, "go.mod"), "w") as f:
            f.write("module verif.local/gen\n\ngo 1.25\n")
        work = open(os.path.join(self.s, "go.work")).read()
        uses = [idx] + [os.path.join(mods, n) for n in good]
        with open(os.path.join(self.s, "go.work"), "w") as f:
            f.write(work.replace("use (\n", "use (\n" + "".join("\t%s\n" % u for u in uses), 1))
        while good:
            r = self.run(["go", "build"] + ["blueprint/goproc/%s/..." % n for n in good], cwd=os.path.join(VERIF, "harness"),
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 0:
                break
            # errors of the compiler have the package in a line of its own; those of the loader precede them and end the build
            loader = re.findall(r"(?ms)^package blueprint/goproc/(\w+)\S*\n(.*?)(?=^package |^# |^\S+\.go:|\Z)", r.stdout)
            blocks = loader + re.findall(r"(?ms)^# blueprint/goproc/(\w+)\S*\n(.*?)(?=^# |\Z)", r.stdout)
            for n, text in blocks:
                failed[n] = failed.get(n, "the generated code does not compile: ") + text[:1500]
            if not blocks:
                log(r.stdout[-6000:])
                for n in good:  # imports that cannot be resolved are reported without naming the package
                    q = self.run(["go", "build", "blueprint/goproc/%s/..." % n], cwd=os.path.join(VERIF, "harness"),
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                    if q.returncode != 0:
                        failed[n] = "the generated code does not compile: " + q.stdout[:1500]
            good = [n for n in good if n not in failed]
            if not loader:
                break
        good = [n for n in good if n not in failed]
        with open(os.path.join(idx, "index.go"), "w") as f:
            f.write("package gen\n\nimport (\n\t\"github.com/blueprint-uservices/blueprint/runtime/plugins/golang\"\n")
            f.write("".join("\t%s \"blueprint/goproc/%s\"\n" % (n, n) for n in good))
            f.write(")\n\n// Procs are the generated processes.\nvar Procs = map[string]func(string) *golang.NamespaceBuilder{\n")
            f.write("".join("\t\"%s\": %s.New,\n" % (n, n) for n in good))
            f.write("}\n\n// Failed are the processes that could not be generated or do not compile.\nvar Failed = map[string]string{\n")
            f.write("".join("\t%s: %s,\n" % (json.dumps(n), json.dumps(t, ensure_ascii=False)) for n, t in sorted(failed.items())))
            f.write("}\n")
        self.generated = good
        return True

    def subpackages(self, sub):
        """The generated packages of that name."""
        return ["blueprint/goproc/%s/%s" % (n, sub) for n in self.generated if os.path.isdir(os.path.join(self.s, "gen", "mods", n, sub))]

    def run(self, cmd, **kw):
        return subprocess.run(cmd, env=kw.pop("env", self.env), **kw)

    def compiler(self):
        """The packages of the compiler, without those that cannot be built here."""
        out = []
        for top in ("blueprint/pkg", "plugins"):
            for d, ds, fs in os.walk(os.path.join(REPO, top)):
                ds[:] = sorted(x for x in ds if x not in ("xtrace", "testdata"))
                if any(f.endswith(".go") and not f.endswith("_test.go") for f in fs):
                    out.append("github.com/blueprint-uservices/blueprint/" + os.path.relpath(d, REPO))
        return out

    def instrument(self, pkgs, flags=()):
        exe = os.path.join(self.s, "instrument")
        if not os.path.exists(exe):
            e = dict(self.env, GOWORK="off", GOFLAGS="")
            self.run(["go", "build", "-o", exe, "."], cwd=os.path.join(VERIF, "instrument"), env=e, check=True)
        out = os.path.join(self.s, "inst")
        os.makedirs(out, exist_ok=True)
        ov = os.path.join(self.s, "overlay1.json")
        r = self.run([exe, "-out", out, "-base", self.overlay, "-overlay", ov, *flags, *pkgs], cwd=os.path.join(VERIF, "harness"))
        if r.returncode != 0:
            return None
        return ov

    def compile(self, pkg, out, overlay, race):
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", overlay, "-o", out]
        if race:
            cmd += ["-race", "-gcflags=verif.local/h/vsched=-race=false"]
        e = dict(self.env)
        e["GOFLAGS"] = ""
        return self.run(cmd + [pkg], cwd=os.path.join(VERIF, "harness"), env=e, stdout=sys.stderr).returncode == 0


def crashed(text):
    """The fatal error of a Go process that ended in the code under test (not in the harness)."""
    m = re.search(r"(?m)^(fatal error: (?!all goroutines)(?!out of memory).*|panic: .*|runtime: goroutine stack exceeds.*)$", text)
    if not m or "panic: test timed out" in text:
        return None
    tail = text[m.start():]
    g = re.search(r"(?ms)^goroutine .*?(?=^goroutine |\Z)", tail)
    stack = g.group(0) if g else tail
    for f in re.findall(r"(?m)^\t(\S+?):\d+", stack):
        if f.startswith(REPO + "/") or "/inst/" in f:
            return m.group(1) + "\n" + stack[:3000]
        if f.startswith(VERIF + "/"):
            return None
    return None


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) ((?:sig|cases)=\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return [(k[4:], t) for k, t in out if k.startswith("sig=")], [(k[6:], t) for k, t in out if k.startswith("cases=")]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--tests", action="store_true", help="one process per pass")
    ap.add_argument("--learn", help="write the failing cases to files with this prefix (tools/learn.py)")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.setup:
        return setup()
    pid, c = a.id, CHECKS[a.id]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rc = 2
    try:
        rc = check(pid, c, a, scratch, t0)
    finally:
        if not a.keep:
            subprocess.run(["chmod", "-R", "u+w", scratch], stderr=subprocess.DEVNULL)
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            log("kept", scratch)
    return rc


def setup():
    """Checks that the toolchain is there and warms the build cache; the checks rebuild whatever they need."""
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="verif-setup-")
    try:
        b = Build(scratch)
        b.workspace()
        return b.run(["go", "build", "./..."], cwd=os.path.join(VERIF, "harness")).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def check(pid, c, a, scratch, t0):
    b = Build(scratch)
    b.env["VERIF_TIER"] = a.tier
    b.workspace()
    if c.get("grpc") and not b.grpc():
        log("gRPC is not available")
        return 2
    if c.get("gen") and not b.generate(c["gen"]):
        log("the generator failed")
        return 2
    results = []
    budget = c.get("budget", {}).get(a.tier, 150 if a.tier == "quick" else 1500)
    for i, ps in enumerate(c["passes"]):
        if ps.get("tier", a.tier) != a.tier:
            continue
        race = ps.get("race", False)
        if race and a.replay:
            pass
        ov = b.overlay
        instrumented = False
        inst = []
        for p in ps.get("instrument", ()):
            inst += b.compiler() if p == "compiler" else [p]
        for sub in ps.get("instrument_gen", ()):
            inst += b.subpackages(sub)
        if inst:
            o = b.instrument(inst, ps.get("instrument_flags", ()))
            if o:
                ov, instrumented = o, True
        exe = os.path.join(scratch, "check%d.test" % i)
        if not b.compile(ps["pkg"], exe, ov, race):
            if not instrumented:
                log("build failed")
                return 2
            log("instrumented build failed; falling back to the plain code")
            instrumented = False
            if not b.compile(ps["pkg"], exe, b.overlay, race):
                log("build failed")
                return 2
        out = os.path.join(scratch, "result%d.json" % i)
        wd = os.path.join(scratch, "wd%d" % i)
        os.makedirs(wd, exist_ok=True)
        env = dict(b.env, VERIF_ID=pid, VERIF_TIER=a.tier, VERIF_OUT=out, VERIF_BUDGET=str(ps.get("budget", {}).get(a.tier, budget)),
                   VERIF_INSTRUMENTED="1" if instrumented else "0", TMPDIR=wd,
                   GODEBUG="tracebacklabels=0", GOLANG_PROTOBUF_REGISTRATION_CONFLICT="ignore")  # the scheduler keeps its task pointer where labels are
        env.setdefault("VERIF_SEED", "1")
        env["VERIF_KNOWN"] = os.path.join(VERIF, "known", pid + ".bin")
        if os.path.exists(env["VERIF_KNOWN"]) or a.learn:
            env["VERIF_TIER"] = "quick"  # the known cases are those of the quick spaces; the thorough tier explores the same
        if race:
            env["GORACE"] = "halt_on_error=0 exitcode=0 log_path=%s" % os.path.join(scratch, "race%d" % i)
        if a.replay:
            env["VERIF_REPLAY"] = os.path.abspath(a.replay)
        tests = ps.get("run", "TestCheck")
        shards = 1 if a.replay or a.tests else ps.get("shards", 1)
        log("running pass %d: %s race=%s instrumented=%s shards=%d (%.1fs so far)" % (i, ps["pkg"], race, instrumented, shards, time.time() - t0))
        cap = ps.get("budget", {}).get(a.tier, budget) * 2 + 120
        procs = []
        for k in range(shards):
            wk = os.path.join(wd, str(k))
            os.makedirs(wk, exist_ok=True)
            e = dict(env, VERIF_OUT="%s.%d" % (out, k), TMPDIR=wk)
            if a.learn:
                e["VERIF_LEARN"] = "%s.%d.%d" % (os.path.abspath(a.learn), i, k)
            if shards > 1:
                e["VERIF_SHARD"] = "%d/%d" % (k, shards)
            lf = open(os.path.join(scratch, "log%d.%d" % (i, k)), "w+b")
            procs.append((subprocess.Popen([exe, "-test.run", "^%s$" % tests, "-test.timeout", "%ds" % (cap + 60)], env=e, cwd=wk, stdout=lf, stderr=lf), lf, e["VERIF_OUT"]))
        end = time.time() + cap + 120
        parts = []
        for n, (p, lf, o) in enumerate(procs):
            try:
                code = p.wait(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                code = -99
            lf.seek(0)
            text = lf.read().decode(errors="replace")
            lf.close()
            if n == 0 or code != 0:
                sys.stderr.write(text if len(text) < 20000 else text[:10000] + "\n...\n" + text[-10000:])
            if os.path.exists(o):
                parts.append(json.load(open(o)))
                continue
            m = crashed(text) if code != -99 else None
            if not m:
                log("pass %d ended with code %s and no result" % (i, code))
                for q, _, _ in procs:
                    if q.poll() is None:
                        q.kill()
                return 2
            # The code under test brought the whole process down in a way the harness cannot contain.
            log("pass %d: the process crashed in the code under test" % i)
            parts.append(dict(states=0, transitions=0, executions=0, outcomes=0, exhaustive=False, samples=[], spaces=[],
                              violations=[dict(sig="crash", scenario="crash", messages=[m])]))
        res = merge(parts)
        res["race"], res["instrumented"], res["harness"] = race, instrumented, ps["pkg"]
        if race and any("data race" in m for v in res["violations"] for m in v["messages"]):
            txt = ""
            for fn in sorted(os.listdir(scratch)):
                if fn.startswith("race%d" % i):
                    txt += open(os.path.join(scratch, fn), errors="replace").read()
            for v in res["violations"]:
                if any("data race" in m for m in v["messages"]):
                    v["race_report"] = txt[:6000]
        results.append(res)
    return report(pid, c, a, results, t0)


def merge(parts):
    """The results of the processes a pass was split over, as one."""
    if len(parts) == 1:
        return parts[0]
    res = dict(violations=[], samples=[], exhaustive=all(p["exhaustive"] for p in parts), known_seen={})
    spaces, keys = {}, {}
    for p in parts:
        res["samples"] += p["samples"]
        for k, n in (p.get("known_seen") or {}).items():
            res["known_seen"][k] = res["known_seen"].get(k, 0) + n
        res["violations"] += [v for v in p["violations"] if sum(w["sig"] == v["sig"] for w in res["violations"]) < 2]
        for s in p["spaces"]:
            t = spaces.setdefault(s["name"], dict(s, executions=0, transitions=0, states=0, outcomes=0, exhaustive=True))
            t.pop("keys", None)
            ks = keys.setdefault(s["name"], set())
            ks.update(s.get("keys") or [])
            t["executions"] += s["executions"]
            t["transitions"] += s["transitions"]
            t["exhaustive"] = t["exhaustive"] and s["exhaustive"]
            t["outcomes"] = len(ks)
            t["states"] = len(ks) if s["states"] == s["outcomes"] else t["states"] + s["states"]
    res["samples"] = res["samples"][:12]
    res["spaces"] = list(spaces.values())
    for k in ("states", "transitions", "executions", "outcomes"):
        res[k] = sum(s[k] for s in res["spaces"])
    return res


def report(pid, c, a, results, t0):
    states = sum(r["states"] for r in results)
    transitions = sum(r["transitions"] for r in results)
    traces = sum(r["executions"] for r in results)
    samples = [s for r in results for s in r["samples"]][:12]
    viol = [v for r in results for v in r["violations"]]
    known, listed = known_findings(pid)
    cases = sum(sum((r.get("known_seen") or {}).values()) for r in results)
    new, seen = [], {}
    for v in viol:
        for sig, text in known:
            if v["sig"] == sig:
                seen[sig] = text
                break
        else:
            new.append(v)
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": states, "transitions": transitions, "traces_validated_against_impl": traces,
            "evaluations": traces, "distinct_outcomes": sum(r["outcomes"] for r in results),
            "samples": samples, "exhaustive": all(r["exhaustive"] for r in results),
            "explanation": c["covers"],
            "passes": [{k: r[k] for k in ("harness", "race", "instrumented", "states", "transitions", "executions", "outcomes", "exhaustive")}
                       | {"spaces": r["spaces"]} for r in results],
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(new),
    }
    if cases:
        ev["coverage"]["failing_cases_listed_as_known"] = cases
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(evd, "replays"), exist_ok=True)
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    for sig, text in known:
        if sig in seen:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, text, sig))
    if cases:
        for f, text in listed:
            print("KNOWN-FINDING: property=%s %s [one of %d failing cases listed in %s]" % (pid, text, cases, f))
    log("%s: states=%d transitions=%d executions=%d outcomes=%d exhaustive=%s wall=%.1fs" % (
        pid, states, transitions, traces, ev["coverage"]["distinct_outcomes"], ev["coverage"]["exhaustive"], ev["wall_s"]))
    if not new:
        return 0
    for i, v in enumerate(new[:int(os.environ.get("VERIF_MAXV", "20"))]):
        path = os.path.join(evd, "replays", "%s-%d.json" % (pid, i))
        json.dump(v, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        for m in v["messages"][:5]:
            print("   [%s] %s" % (v["sig"], m[:1500]))
    return 1


if __name__ == "__main__":
    sys.exit(main())
