#!/usr/bin/env python3
"""Decides one property: run.py ID, or run.py ID --replay FILE, or run.py setup.

Builds the property checks against /repo's working tree, runs the saved cases and
then generated ones in several processes, watches those for death and for lack of
progress, and writes evidence/ID.json.  See DESIGN.md.
"""
import glob
import json
import mmap
import os
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SHARDS = int(os.environ.get("VERIF_SHARDS", "8"))
STALL = float(os.environ.get("VERIF_STALL", "120"))  # seconds on one case
MEMORY = int(os.environ.get("VERIF_MEMORY", "3000")) << 20  # of a process, before its case is tried alone
FINDINGS = os.path.join(HERE, "known-findings.txt")

TITLES = {}
for line in open(os.path.join(HERE, "properties.jsonl")):
    if line.strip():
        d = json.loads(line)
        TITLES[d["id"]] = d["title"]

ASSUMPTIONS = {
    "*": [
        "The reference model in pbt/ref states the property; where it calls an evaluation unspecified the case is skipped, and counted as skipped.",
        "Generated inputs are a sample: a violation outside what the generators reach is not seen.",
    ],
    "C16": ["Schedules are those the Go scheduler happened to choose; half of the processes run under the race detector."],
    "C17": ["A goroutine still there 10 s after its evaluation returned is taken to have leaked."],
    "C18": ["The file system and pipes of the sandbox; the only write failure tried is a full device."],
}


def env():
    e = dict(os.environ)
    e.update(
        HOME=e.get("HOME", "/root"),
        GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1",
    )
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh && env -0"], stdout=subprocess.PIPE, env=e)
    if out.returncode == 0:
        for kv in out.stdout.decode("utf-8", "replace").split("\0"):
            k, _, v = kv.partition("=")
            if k in ("PATH", "GOPATH", "GOMODCACHE", "GOCACHE", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "HOME"):
                e[k] = v
    return e


ENV = env()


def die(msg, code=2):
    print("run.py: " + msg, file=sys.stderr)
    sys.exit(code)


def module():
    """The directory of the module to build, with its replacement of the package under test."""
    if REPO == "/repo":
        return os.path.join(HERE, "pbt"), []
    mod = os.path.join(WORK, "go.mod")
    text = open(os.path.join(HERE, "pbt", "go.mod")).read().replace("=> /repo", "=> " + REPO)
    open(mod, "w").write(text)
    shutil.copy(os.path.join(HERE, "pbt", "go.sum"), os.path.join(WORK, "go.sum"))
    return os.path.join(HERE, "pbt"), ["-modfile=" + mod]


def build(out, pkg, *flags):
    d, extra = module()
    cmd = ["go", "build", "-o", out, *flags, *extra, pkg]
    r = subprocess.run(cmd, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        die("cannot build: %s\n%s" % (" ".join(cmd), r.stdout.decode("utf-8", "replace")))
    return out


def build_all(check):
    bins = {"plain": build(os.path.join(WORK, "pbt"), "./cmd/pbt", *(["-tags=tree"] if check == "C21" else []))}
    if check in ("C16", "setup"):
        bins["race"] = build(os.path.join(WORK, "pbt-race"), "./cmd/pbt", "-race")
    if check in ("C18", "setup"):
        jpath = os.path.join(WORK, "jpath")
        r = subprocess.run(["go", "build", "-o", jpath, "./cmd/jpath"], cwd=REPO, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            die("cannot build jpath:\n" + r.stdout.decode("utf-8", "replace"))
        ENV["PBT_JPATH"] = jpath
    ENV["TMPDIR"] = WORK
    ENV["GORACE"] = "suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=66"
    ENV["GOTRACEBACK"] = "all"
    return bins


class Cur:
    """The case a worker is executing."""

    def __init__(self, name):
        self.name = name
        self.mem = None

    def open(self):
        if self.mem is None and os.path.exists(self.name) and os.path.getsize(self.name) >= 32:
            with open(self.name, "rb") as fd:
                self.mem = mmap.mmap(fd.fileno(), 0, prot=mmap.PROT_READ)
        return self.mem is not None

    def count(self):
        return struct.unpack_from("<Q", self.mem, 0)[0] if self.open() else 0

    def record(self, check, failure):
        if not self.open() or self.count() == 0:
            return None
        _, nf, nd = struct.unpack_from("<QQQ", self.mem, 0)
        if nf == 0:
            return None
        fam = self.mem[32:32 + nf].decode()
        data = self.mem[32 + nf:32 + nf + nd]
        try:
            return {"property": check, "family": fam, "case": json.loads(data), "failure": failure}
        except ValueError:
            return None


class Worker:
    all = []

    def __init__(self, check, bins, tier, seed, shard, shards, seconds):
        self.kind = "race" if "race" in bins and shard % 2 == 0 else "plain"
        self.shard = shard
        base = os.path.join(WORK, "w%d" % shard)
        self.out = base + ".json"
        self.cur = Cur(base + ".cur")
        self.errname = base + ".err"
        self.err = open(self.errname, "wb")
        self.args = ["-check", check, "-tier", tier, "-seed", str(seed), "-shard", str(shard), "-shards", str(shards)]
        cmd = [bins[self.kind], "worker", *self.args, "-out", self.out, "-cur", self.cur.name]
        if seconds:
            cmd += ["-seconds", str(seconds)]
        corpus = os.path.join(HERE, "corpus", check + ".jsonl")
        if os.path.exists(corpus) and shard < 2:
            cmd += ["-corpus", corpus]
        self.p = subprocess.Popen(cmd, cwd=WORK, env=ENV, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err)
        Worker.all.append(self)
        self.last = 0
        self.peak = 0
        self.memory = MEMORY
        self.since = time.time()
        self.patience = STALL
        self.alone = None  # how long its case took alone

    def stalled(self):
        n = self.cur.count()
        if n != self.last:
            self.last = n
            self.since = time.time()
            self.patience = STALL
            self.alone = None
        return time.time() - self.since > self.patience

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()

    def tail(self, n=4000):
        self.err.flush()
        data = open(self.errname, "rb").read()
        i = max(data.find(b"fatal error:"), data.find(b"panic:"), 0)
        return data[i:i + n].decode("utf-8", "replace")


def memory(pid):
    """The bytes of memory that a process has."""
    try:
        return int(open("/proc/%d/statm" % pid).read().split()[1]) * os.sysconf("SC_PAGE_SIZE")
    except (OSError, IndexError, ValueError):
        return 0


def replay(bins, kind, rec, timeout):
    """Runs a record on its own: "held", "failed" or "hung", with its output."""
    fd, name = tempfile.mkstemp(suffix=".json", dir=WORK)
    with os.fdopen(fd, "w") as f:
        json.dump(rec, f)
    with open(name + ".out", "wb") as out:
        r = subprocess.Popen([bins[kind], "replay", name], cwd=WORK, env=ENV, stdin=subprocess.DEVNULL, stdout=out, stderr=out)
        begin = time.time()
        while r.poll() is None:
            time.sleep(0.02)
            size = memory(r.pid)
            if size > 2 * MEMORY or time.time() - begin > timeout:
                r.kill()
                r.wait()
                if size > 2 * MEMORY:
                    return "failed", "it used %d MB of memory, and did not finish" % (size >> 20)
                return "hung", "no answer in %d s" % timeout
    text = open(name + ".out", "rb").read().decode("utf-8", "replace")
    if r.returncode == 0:
        return "held", text
    if r.returncode == 3:
        die("the machinery failed:\n" + text[-3000:], 3)
    return "failed", text


def save(check, rec):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    name = os.path.join(d, "%s-%d.json" % (check, os.getpid()))
    with open(name, "w") as f:
        json.dump(rec, f, indent=1)
    return name


def evidence(check, tier, seed, reports, hashes, wall, violations, extra):
    fams = {}
    for rep in reports:
        for name, st in rep.get("families", {}).items():
            f = fams.setdefault(name, {"evaluations": 0, "decided": 0, "nontrivial": 0, "skips": {}, "labels": {}, "samples": [], "seconds": 0.0, "slowest": 0.0, "cut": False})
            for k in ("evaluations", "decided", "nontrivial", "seconds"):
                f[k] += st[k]
            f["slowest"] = max(f["slowest"], st["slowest"])
            f["cut"] = f["cut"] or st.get("cut", False)
            for k in ("skips", "labels"):
                for l, n in (st.get(k) or {}).items():
                    f[k][l] = f[k].get(l, 0) + n
            for s in st.get("samples") or []:
                if len(f["samples"]) < 4 and s not in f["samples"]:
                    f["samples"].append(s)
    samples = []
    for name, f in sorted(fams.items()):
        for s in f["samples"]:
            samples.append({"family": name, "case": s})
    for f in fams.values():
        f.pop("samples")
        f["seconds"] = round(f["seconds"], 2)
        f["slowest"] = round(f["slowest"], 3)
        if not f["cut"]:
            f.pop("cut")
    rules = subprocess.run([extra.pop("bin"), "list"], stdout=subprocess.PIPE, env=ENV).stdout.decode()
    rule = ""
    for line in rules.splitlines():
        i, _, r = line.partition("\t")
        if i == check:
            rule = r
    ev = {
        "property": check, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(f["evaluations"] for f in fams.values()),
            "decided": sum(f["decided"] for f in fams.values()),
            "distinct_nontrivial": len(hashes),
            "rule": "cases come from the generators and enumerations listed under families; a case counts as non-trivial if it was decided and " + rule,
            "samples": samples,
            "families": fams,
            **extra,
        },
        "assumptions": ASSUMPTIONS["*"] + ASSUMPTIONS.get(check, []),
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, check + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)


def findings(check, bins):
    """Prints the known findings that are still there; returns a violation if one has changed."""
    bad = None
    if not os.path.exists(FINDINGS):
        return bad, 0
    n = 0
    for line in open(FINDINGS):
        line = line.strip()
        if not line.startswith("finding: property=%s " % check):
            continue
        rest = line.split(" ", 2)[2]
        case, end = json.JSONDecoder().raw_decode(rest)
        text = rest[end:].strip()
        fd, name = tempfile.mkstemp(suffix=".json", dir=WORK)
        with os.fdopen(fd, "w") as f:
            json.dump(case, f)
        r = subprocess.run([bins["plain"], "finding", name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, timeout=200)
        out = r.stdout.decode("utf-8", "replace").strip()
        if out.startswith("PRESENT"):
            print("KNOWN-FINDING: property=%s %s on %s: %s" % (check, case["path"], case["doc"], text))
            n += 1
        elif not out.startswith("ABSENT"):
            bad = {"property": check, "family": "expect", "case": {k: case[k] for k in ("path", "doc", "results", "error", "refused") if k in case}, "failure": out}
    return bad, n


def violation(check, rec):
    name = save(check, rec)
    print("%s: %s" % (check, TITLES.get(check, "")))
    print(str(rec.get("failure", ""))[:3000])
    print("case: " + json.dumps(rec.get("case"))[:2000])
    print("VIOLATION property=%s replay=%s" % (check, name))


def collect(ws):
    reports, hashes = [], set()
    for w in ws:
        if os.path.exists(w.out):
            try:
                rep = json.load(open(w.out))
                data = open(w.out + ".hashes", "rb").read()
            except (OSError, ValueError):
                continue  # ended while it wrote them
            reports.append(rep)
            hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data))
    return reports, hashes


def run(check):
    begin = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    bins = build_all(check)
    built = time.time() - begin
    rec, known = findings(check, bins)
    seconds = float(os.environ.get("VERIF_SECONDS", "400" if tier == "quick" else "660"))
    ws = [] if rec else [Worker(check, bins, tier, seed, i, SHARDS, seconds) for i in range(SHARDS)]
    running = list(ws)
    retried = set()
    while running and rec is None:
        time.sleep(0.05)
        for w in list(running):
            code = w.p.poll()
            if code is None:
                size = memory(w.p.pid)
                w.peak = max(w.peak, size)
                if size > w.memory:
                    # it waits meanwhile
                    w.p.send_signal(signal.SIGSTOP)
                    cand = w.cur.record(check, "the process has %d MB of memory: the case does not finish" % (size >> 20))
                    how, text = replay(bins, w.kind, cand, 150) if cand is not None else ("held", "")
                    if how != "held":
                        w.kill()
                        cand["failure"] += "\n" + text[:3000]
                        rec = cand
                        break
                    w.memory *= 2
                    w.p.send_signal(signal.SIGCONT)
                    w.since = time.time()
                    continue
                if not w.stalled():
                    continue
                cand = w.cur.record(check, "no progress for %d s: the case does not finish" % w.patience)
                if cand is None:
                    die("worker %d stalled before its first case" % w.shard, 3)
                if w.alone is None:
                    # it's left running meanwhile, in case it's only slow
                    t = time.time()
                    how, text = replay(bins, w.kind, cand, 150)
                    w.alone = time.time() - t
                    if how == "held":
                        w.patience = max(2.5 * STALL, 20 * w.alone)
                        continue
                else:
                    text = "it took %.1f s alone" % w.alone
                    cand["note"] = "it finishes alone: it needs the cases before it, which \"rerun\" gives"
                    cand["rerun"] = {"kind": w.kind, "args": w.args}
                w.kill()
                cand["failure"] += "\n" + text[:3000]
                rec = cand
                break
            if rec is not None:
                break
            running.remove(w)
            if code == 0:
                rep = json.load(open(w.out))
                if rep.get("violation"):
                    rec = rep["violation"]
                    how, text = replay(bins, w.kind, rec, 150)
                    if how == "held":
                        rec["note"] = "it does not happen alone: it needs the cases before it, which \"rerun\" gives"
                        rec["rerun"] = {"kind": w.kind, "args": w.args}
                    break
                continue
            if code == 3:
                die("the machinery failed:\n" + w.tail(), 3)
            # the process died
            cand = w.cur.record(check, "the process died (status %d)\n%s" % (code, w.tail()))
            if cand is not None:
                how, text = replay(bins, w.kind, cand, 150)
                if how != "held":
                    rec = cand
                    break
            if code > 0 and ("fatal error: concurrent map" in w.tail() or "panic:" in w.tail()) and cand is not None:
                cand["note"] = "it did not happen again alone"
                cand["rerun"] = {"kind": w.kind, "args": w.args}
                rec = cand
                break
            if w.shard in retried:
                die("worker %d died twice (status %d), but its case does not fail alone\n%s" % (w.shard, code, w.tail()), 3)
            retried.add(w.shard)
            n = Worker(check, bins, tier, seed, w.shard, SHARDS, seconds)
            ws[ws.index(w)] = n
            running.append(n)
    for w in ws:
        w.kill()
    reports, hashes = collect(ws)
    if not reports and rec is None:
        die("nothing was reported", 3)
    if rec:
        violation(check, rec)
        sys.stdout.flush()
    evidence(check, tier, seed, reports, hashes, time.time() - begin, 1 if rec else 0,
             {"bin": bins["plain"], "processes": SHARDS, "build_s": round(built, 2), "known_findings": known,
              "peak_memory_mb": max([w.peak for w in ws] or [0]) >> 20})
    if rec:
        return 1
    ev = sum(st["evaluations"] for rep in reports for st in rep["families"].values())
    print("%s held on %d cases (%d distinct and non-trivial), %.1f s" % (check, ev, len(hashes), time.time() - begin))
    return 0


def again(check, name):
    rec = json.load(open(name))
    bins = build_all(check)
    kind = "race" if "race" in bins else "plain"
    how, text = replay(bins, kind, rec, 300)
    print(text)
    if how == "held" and "rerun" in rec:
        out = os.path.join(WORK, "again.json")
        r = subprocess.run([bins[rec["rerun"]["kind"]], "worker", *rec["rerun"]["args"], "-out", out], cwd=WORK, env=ENV, timeout=800)
        if r.returncode != 0 or json.load(open(out)).get("violation"):
            how = "failed"
            print(json.dumps(json.load(open(out)).get("violation")) if r.returncode == 0 else "died")
    if how != "held":
        print("VIOLATION property=%s replay=%s" % (check, name))
        return 1
    print("held")
    return 0


def main():
    sys.stdout.reconfigure(errors="backslashreplace")
    global WORK
    if len(sys.argv) < 2:
        die("usage: run.py ID [--replay FILE]")
    check = sys.argv[1]
    base = os.path.join(HERE, ".work")
    os.makedirs(base, exist_ok=True)
    WORK = tempfile.mkdtemp(prefix=check + "-", dir=base)
    try:
        if check == "setup":
            build_all(check)
            print("built")
            return 0
        if check not in TITLES:
            die("unknown property " + check)
        if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
            return again(check, sys.argv[3])
        return run(check)
    finally:
        for w in Worker.all:
            w.kill()
        shutil.rmtree(WORK, ignore_errors=True)


sys.exit(main())
