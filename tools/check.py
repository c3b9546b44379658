#!/usr/bin/env python3
"""Driver of the checks: builds the harness binaries from /repo's working tree in a scratch directory, explores, writes the evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = os.path.join(HERE, "mc")
GO = "/opt/veriftools/go1.27.3/bin"

# binaries per property: vmc = instrumented, vseq = plain build, race = instrumented with the race detector
USES = json.load(open(os.path.join(HERE, "tools", "uses.json")))
NORACE = ["verif/rt", "verif/shim/vsync", "verif/shim/vtime", "verif/shim/vcontext", "verif/shim/vrand", "verif/shim/vrand2", "verif/shim/vruntime", "verif/fake", "verif/sys",
          "verif/explore", "verif/cmd/vmc", "verif/ref"]


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = GO + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", GONOSUMDB="*",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
    e.pop("VMC_DEBUGLOG", None)
    return e


class Error(Exception):
    pass


def run(cmd, cwd=MC, e=None, timeout=800):
    p = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise Error("%s failed (%d):\n%s" % (" ".join(cmd[:6]), p.returncode, p.stdout[-6000:]))
    return p.stdout


class Builder:
    def __init__(self, tmp):
        self.tmp = tmp
        self.prepared = False

    def prepare(self):
        if self.prepared:
            return
        t = self.tmp
        os.makedirs(t + "/gen", exist_ok=True)
        run(["go", "build", "-trimpath", "-o", t + "/instrument", "./cmd/instrument"])
        run([t + "/instrument", "-out", t + "/gen", "-overlay", t + "/overlay.json", "-hooks", "HOOKS.json", "-modfile", t + "/go.mod"])
        self.prepared = True

    def build(self, kind):
        t = self.tmp
        out = "%s/%s" % (t, kind)
        if kind == "vseq":
            # go.mod of the harness must not be rewritten: work on a copy
            shutil.copy(MC + "/go.mod", t + "/plain.mod")
            shutil.copy(MC + "/go.sum", t + "/plain.sum")
            run(["go", "build", "-trimpath", "-modfile", t + "/plain.mod", "-o", out, "./cmd/vseq"])
            return out
        self.prepare()
        inst = ["-trimpath", "-overlay", t + "/overlay.json", "-modfile", t + "/go.mod"]
        if kind == "vmc":
            run(["go", "build"] + inst + ["-o", out, "./cmd/vmc"])
        else:
            e = env()
            e["CGO_ENABLED"] = "1"
            # packages built without -race would otherwise allocate behind the back of the race detector
            e["GOEXPERIMENT"] = "nosizespecializedmalloc"
            run(["go", "build", "-race"] + ["-gcflags=%s=-race=false" % p for p in NORACE] + inst + ["-o", out, "./cmd/vmc"], e=e)
        return out


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass


def explore(binary, tmp, kind, prop, tier, seconds):
    out = "%s/%s.json" % (tmp, kind)
    e = env()
    e["VMC_TMP"] = tmp
    p = subprocess.Popen([binary, "-prop", prop, "-tier", tier, "-seconds", "%.1f" % seconds, "-out", out], cwd=tmp, env=e,
                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        _, err = p.communicate(timeout=seconds * 2 + 600)
    except subprocess.TimeoutExpired:
        kill_group(p)
        raise Error("the exploration did not end")
    sys.stderr.write(err[-20000:])
    if p.returncode != 0 or not os.path.exists(out):
        raise Error("the explorer failed (%s):\n%s" % (p.returncode, err[-4000:]))
    return json.load(open(out))


def known():
    path = os.path.join(HERE, "known-findings.txt")
    r = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", l)
            if m:
                r.append(m.groups())
    return r


def evidence(prop, tier, seed, results, wall, nviol, path, extra=None):
    parts = [dict(p, binary=k) for k, r in results for p in (r.get("parts") or [])]
    samples = []
    for p in parts:
        for s in (p.get("samples") or [])[:2]:
            if len(samples) < 12:
                samples.append("%s: %s" % (p["scenario"], s[:900]))
    rows = []
    for p in parts:
        q = {k: v for k, v in p.items() if k not in ("samples",)}
        q["seconds"] = round(q.get("seconds", 0), 2)
        rows.append(q)
    execs = sum(p["executions"] for p in parts)
    cov = dict(
        states=sum(p["decision_nodes"] for p in parts),
        transitions=sum(p["steps"] for p in parts),
        traces_validated_against_impl=execs,
        evaluations=execs,
        distinct_outcomes=sum(p["distinct_outcomes"] for p in parts),
        exhaustive=bool(parts) and all(p["complete"] for p in parts),
        completed_bounds=["%s: %s" % (p["scenario"], p.get("config") or "all cases") for p in parts if p["complete"]][:60],
        rule="states = nodes of the decision tree (mc) or enumerated cases (seq); transitions = scheduling steps / operations executed; every "
             "execution runs the implementation itself, so each explored trace is validated against it by construction.",
        samples=samples or ["none"],
        parts=rows[:80],
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=["/verif/mc/rt executes one goroutine at a time: behaviours are the sequentially consistent ones, races are judged by C30",
                           "third-party edges (sarama, agent transport, HTTP listener) are the fakes of /verif/mc/fake and /verif/mc/sys",
                           "bounds as listed per part"],
              wall_s=round(wall, 2), violations=nviol)
    probs = [x for _, r in results for x in (r.get("problems") or [])]
    if probs:
        ev["problems"] = [x[:1000] for x in probs][:10]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    b = json.dumps(ev, indent=1)
    while len(b) > 60000 and cov["parts"]:
        cov["parts"] = cov["parts"][:len(cov["parts"]) // 2]
        b = json.dumps(ev, indent=1)
    with open(path, "w") as f:
        f.write(b + "\n")


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    use = USES[prop]
    tmp = tempfile.mkdtemp(prefix="vchk-")
    try:
        b = Builder(tmp)
        results = []
        viols = []
        total = use.get("thorough", 600) if tier == "thorough" else use.get("quick", 30)
        bins = use["bins"]
        built = [(k, b.build(k)) for k in bins]
        sys.stderr.write("built %s in %.1f s\n" % (bins, time.time() - t0))
        for i, (k, path) in enumerate(built):
            w = use.get("weights", [1] * len(bins))
            secs = total * w[i] / sum(w)
            r = explore(path, tmp, k, prop, tier, secs)
            results.append((k, r))
            if not r.get("parts"):
                raise Error("nothing was explored by " + k)
            if sum(p["executions"] for p in r["parts"]) == 0 and not r.get("violations"):
                raise Error("no execution by %s: %s" % (k, r.get("problems")))
            for v in r.get("violations") or []:
                v["binary"] = k
                viols.append(v)
            if viols:
                break
        new = []
        kn = known()
        for v in viols:
            hit = [x for x in kn if x[0] == prop and x[1] == v.get("sig")]
            if v.get("sig") and hit:
                print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
            else:
                new.append(v)
        evidence(prop, tier, seed, results, time.time() - t0, len(new), os.path.join(HERE, "evidence", prop + ".json"))
        for i, v in enumerate(new):
            d = os.path.join(HERE, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%d.json" % (prop, i + 1))
            json.dump(v, open(path, "w"), indent=1)
            print("violated: %s [%s] %s: %s" % (v["scenario"], v.get("label", ""), v["class"], v["message"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1 if new else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


TITLES = {}
for _l in open(os.path.join(HERE, "properties.jsonl")):
    _p = json.loads(_l)
    TITLES[_p["id"]] = _p["title"]


def replay(path):
    v = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vchk-")
    try:
        binary = Builder(tmp).build(v["binary"])
        e = env()
        e["VMC_TMP"] = tmp
        p = subprocess.run([binary, "-replay", os.path.abspath(path)], env=e, cwd=tmp)
        return p.returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def setup():
    tmp = tempfile.mkdtemp(prefix="vchk-")
    try:
        b = Builder(tmp)
        for k in sorted({k for u in USES.values() for k in u["bins"]}):
            b.build(k)
            print("built", k)
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def scenarios():
    """Writes SCENARIOS.md: what the binaries would explore."""
    tmp = tempfile.mkdtemp(prefix="vchk-")
    try:
        b = Builder(tmp)
        out = subprocess.check_output([b.build("vmc"), "-list"], text=True) + subprocess.check_output([b.build("vseq"), "-list"], text=True)
        rows = sorted(tuple(l.split("\t")) for l in out.splitlines())
        with open(os.path.join(HERE, "SCENARIOS.md"), "w") as f:
            f.write("# What is enumerated\n\nGenerated by `check.sh scenarios`. mc: executions under the controlled scheduler; seq: cases of a plain build.\n")
            last = ""
            for p, kind, name, what in rows:
                if p != last:
                    f.write("\n## %s %s\n\n" % (p, TITLES[p]))
                    last = p
                f.write("- **%s** (%s): %s\n" % (name, kind, what))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "scenarios":
            return scenarios()
        if a[0] == "setup":
            return setup()
        if a[0] == "replay":
            return replay(a[1])
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        return check(a[0], tier)
    except (Error, subprocess.TimeoutExpired) as x:
        print("ERROR:", x)
        return 2


if __name__ == "__main__":
    sys.exit(main())
