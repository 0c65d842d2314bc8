#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from /repo, runs its jobs, reports.

  check.py C01            (tier from VERIF_TIER: quick|thorough)
  check.py C01 --replay <file>   repeats the job that reported a violation

Jobs print lines:  STAT k v | NOTE t | SAMPLE t | VIOL prop tag text | ERROR .. | END rc
"""
import os, re, sys, json, time, subprocess, threading, queue, resource, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, props
VERIF = vbuild.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")

def known(pid):
    """{tag: description} of the recorded, unrepaired findings of one property"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: "):
                f = dict(x.split("=", 1) for x in l[7:].split(" | ")[0].split())
                if f.get("property") == pid:
                    r[f["tag"]] = l.split(" | ", 1)[1]
    return r

class Job:
    def __init__(self, cmd, mem=24 << 30, timeout=800, cwd=None):
        self.cmd, self.mem, self.timeout, self.cwd = cmd, mem, timeout, cwd
        self.stats, self.notes, self.samples, self.viols, self.errors, self.ended = {}, [], [], [], [], None

    def run(self):
        t0 = time.time()
        work = tempfile.mkdtemp(prefix="job-", dir=props.scratch())
        env = dict(os.environ, VERIF_WORK=work, VERIF_HOME=VERIF, VERIF_REPO=vbuild.REPO, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        def lim():
            resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        err = ""
        try:
            p = subprocess.Popen(self.cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", cwd=work, env=env, preexec_fn=lim, start_new_session=True)
            try:
                out, err = p.communicate(timeout=self.timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                out, err = p.communicate()
                self.errors.append("job exceeded %d s" % self.timeout)
            self.rc = p.returncode
        finally:
            shutil.rmtree(work, ignore_errors=True)
        for l in out.split("\n"):
            f = l.rstrip("\n").split("\t")
            if f[0] == "STAT":
                self.stats[f[1]] = float(f[2])
            elif f[0] == "NOTE":
                self.notes.append(f[1])
            elif f[0] == "SAMPLE":
                self.samples.append(f[1][:600])
            elif f[0] == "VIOL":
                self.viols.append((f[1], f[2], "\t".join(f[3:])))
            elif f[0] == "ERROR":
                self.errors.append(l)
            elif f[0] == "END":
                self.ended = int(f[1])
        if self.ended is None and not self.viols and not self.errors:
            self.errors.append("job ended without a verdict (status %s) %s" % (self.rc, err[-1500:]))
        self.wall = time.time() - t0

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    P = props.PROPS[pid]
    if "--replay" in sys.argv:
        rp = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        vbuild.build(props.targets(P))
        j = Job([c.replace("@VERIF@", VERIF).replace("@BIN@", os.path.join(vbuild.BUILD, "bin")) for c in rp["job"]])
        j.run()
        for v in j.viols:
            print("\t".join(v))
        return 1 if j.viols else 0
    try:
        exes = vbuild.build(props.targets(P))
    except vbuild.BuildError as e:
        print("ERROR: build failed\n" + str(e))
        return 2
    tb = time.time() - t0
    cmds = P["thorough"] if tier == "thorough" and "thorough" in P else P["quick"]
    cmds = cmds(tier, seed) if callable(cmds) else cmds
    jobs = []
    for c in cmds:
        c = c.split() if isinstance(c, str) else list(c)
        if c[0] in props.T and c[0] not in exes:
            print("NOTE: %s cannot be built from this tree; its job is left out" % c[0])
            continue
        c[0] = exes.get(c[0], c[0])
        c = [x.replace("@VERIF@", VERIF) for x in c]
        c = [re.sub(r"@EXE:(\w+)@", lambda m: exes[m.group(1)], x) for x in c]
        jobs.append(Job(c, timeout=3 * 3600 if tier == "thorough" else 800))
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    def worker():
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                return
            try:
                j.run()
            except Exception as e:
                j.errors.append("job failed: %r" % e)
                j.wall = 0
    ths = [threading.Thread(target=worker) for _ in range(P.get("parallel", 8))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    kn = known(pid)
    fresh, seen, errors = [], {}, []
    for j in jobs:
        for (p, tag, text) in j.viols:
            if p != pid:
                continue
            if tag in kn:
                seen[tag] = text
            else:
                fresh.append((j, tag, text))
        errors += j.errors
    sm = lambda k: int(sum(j.stats.get(k, 0) for j in jobs))
    cov = {"states": sm("states"), "transitions": sm("transitions"),
           "traces_validated_against_impl": sm("runs") or sm("transitions"),
           "exhaustive": bool(jobs) and all(j.stats.get("complete", 0) == 1 for j in jobs),
           "samples": [s for j in jobs for s in j.samples][:12],
           "jobs": [{"cmd": " ".join(os.path.basename(x) for x in j.cmd), "wall_s": round(getattr(j, "wall", 0), 2),
                     "stats": {k: (int(v) if v == int(v) else v) for k, v in j.stats.items() if v == v and abs(v) < 1e300}, "notes": j.notes} for j in jobs]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"), "coverage": cov,
          "assumptions": P.get("assume", []), "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for tag in seen:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[tag]))
    print("%s %s: %d states, %d transitions, %d executions of the code; build %.1fs, total %.1fs" % (pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], tb, time.time() - t0))
    if fresh:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        done = set()
        for j, tag, text in fresh:
            if tag in done:
                continue
            done.add(tag)
            path = os.path.join(VERIF, "replay", "%s-%d.json" % (pid, len(done)))
            with open(path, "w") as f:
                json.dump({"property": pid, "tag": tag, "violation": text,
                           "job": [c.replace(os.path.join(vbuild.BUILD, "bin"), "@BIN@").replace(VERIF, "@VERIF@") for c in j.cmd],
                           "repeat": "python3 lib/check.py %s --replay %s" % (pid, path)}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  [%s] %s" % (tag, text[:1500]))
            if len(done) >= 10:
                break
        return 1
    if errors:
        for e in errors:
            print("ERROR: " + e)
        return 2
    return 0

if __name__ == "__main__":
    rc = main()
    try:
        sd = props.scratch(False)
        if sd:
            shutil.rmtree(sd, ignore_errors=True)
    finally:
        sys.exit(rc)
