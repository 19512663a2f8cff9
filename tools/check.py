#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--keep]: decide property ID for /repo's current tree.

1. TLC explores the design-level specifications that belong to the property (and prints their
   behaviours as scripts); 2. the executor, built from /repo, runs those scripts and generated ones and
   records every call; 3. TLC checks every recorded execution against the trace specifications with the
   clauses of this property switched on.
Exit 0: everything explored satisfies the property.  Exit 1: VIOLATION line.  Exit 2: no answer."""
import argparse, concurrent.futures as cf, hashlib, json, os, random, re, resource, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import gen, jobs
WORK = os.environ.get("VERIF_WORK", os.path.join(ROOT, "work"))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JAVA = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss64m"]
NPROC = 8

class Unanswered(Exception): pass

def tlc(module, cfg, meta, env=None, timeout=850, mem="2g", extra=(), workers="1"):
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ); e.update(env or {})
    cmd = JAVA + ["-Djava.io.tmpdir=" + meta, "-Xmx" + mem, "-cp", CP, "tlc2.TLC", "-workers", workers, "-noGenerateSpecTE", "-metadir", meta,
                  "-config", cfg, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Unanswered("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode(errors="replace")

def stats(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        m = re.findall(r"The number of states generated: ([\d,]+)", out)      # simulation
        return (int(m[-1].replace(",", "")),) * 2 if m else (0, 0)
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = os.path.join(WORK, "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)
        self.t0 = time.time(); self.nviol = 0
        self.states = self.trans = self.traces = self.events = self.cases = 0
        self.ops = {}; self.outcomes = {"ok": 0, "error": 0, "panic": 0}; self.faults = 0
        self.models = []; self.samples = []

    # -- design-level models
    def model(self, m):
        t0 = time.time()
        rc, out = tlc(m["module"], m.get("cfg", m["module"] + ".cfg"), os.path.join(self.dir, "meta-" + m["name"]),
                      env={"SEED": str(self.seed)}, extra=[x.format(seed=self.seed) for x in m.get("extra", ())], timeout=m.get("timeout", 600), workers=m.get("workers", "1"), mem=m.get("mem", "3g"))
        lines = [l[1:-1] for l in out.splitlines() if l.startswith('"CASE')]
        rest = [l for l in out.splitlines() if not l.startswith('"CASE')]
        g, d = stats("\n".join(rest))
        if rc != 0:
            # a design-level model does not depend on /repo: failing here is the machinery's fault
            raise Unanswered("model %s failed:\n%s" % (m["name"], "\n".join(rest[-40:])))
        self.states += d; self.trans += g
        uniq = sorted(set(lines))
        self.models.append({"model": m["name"], "distinct_states": d, "transitions": g, "scripts": len(uniq), "seconds": round(time.time() - t0, 1)})
        return uniq

    # -- one shard: script -> executor -> trace -> TLC
    def shard(self, name, cfgname, trace_mod, cases):
        lines = [x for c in cases for x in c] + ["case end x"]
        sp = os.path.join(self.dir, name + ".script"); tp = os.path.join(self.dir, name + ".ndjson")
        with open(sp, "w") as f: f.write("\n".join(lines) + "\n")
        exe = os.path.join(WORK, "target-" + cfgname, "rel" if cfgname.endswith("r") else "debug", "executor")
        crash = None
        try:
            r = subprocess.run([exe, sp, tp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=150, preexec_fn=limits)
            if r.returncode != 0:
                crash = "executor ended with %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-400:].strip())
        except subprocess.TimeoutExpired:
            crash = "a call did not return"
        evs = []
        if os.path.exists(tp):
            with open(tp, errors="replace") as f:
                for x in f:
                    try: evs.append(json.loads(x))
                    except ValueError: break
        if crash:
            # drop a half-written event
            with open(tp, "w") as f:
                for x in evs: f.write(json.dumps(x, separators=(",", ":")) + "\n")
        res = {"name": name, "cfg": cfgname, "events": len(evs), "cases": len(cases), "bad": None, "ops": {}, "out": [0, 0, 0], "faults": 0}
        for e in evs:
            k = e.get("e")
            res["ops"][k] = res["ops"].get(k, 0) + 1
            if e.get("ok") in (0, 1, 2): res["out"][e["ok"]] += 1
            if e.get("den") or e.get("cf") or e.get("pn"): res["faults"] += 1
        if evs:
            rc, out = tlc(trace_mod + ".tla", trace_mod + ".cfg", os.path.join(self.dir, "meta-" + name), env={"TRACE": tp, "PROP": self.pid})
            res["g"], res["d"] = stats(out)
            acc = re.search(r'<<"ACCEPTED", (\d+)>>', out)
            if acc and rc == 0:
                res["trans"] = int(acc.group(1))
            else:
                mm = re.findall(r'<<\s*"MISMATCH",\s*(\d+),\s*"([^"]*)",\s*(.*)', out)
                rej = re.search(r'<<"REJECTED", (\d+)>>', out)
                if mm:
                    i = re.search(r'<<\s*"MISMATCH"', out).start()
                    info = re.sub(r"\s+", " ", out[i:i + 1500]).split(" <<\"REJECTED\"")[0]
                    res["bad"] = (int(mm[0][0]) - 1, mm[0][1], info)
                elif rej and "Error:" not in out[:out.index('<<"REJECTED"')]:
                    res["bad"] = (int(rej.group(1)) - 1, "no specified behaviour", "")
                elif "The error occurred when TLC was evaluating" in out or "Attempted to" in out or "TLC threw an unexpected exception" in out:
                    st = re.findall(r"l = (\d+)", out)
                    res["bad"] = (int(st[-1]) - 1 if st else 0, "observation outside the specification's domain", " ".join(out[out.find("Error:"):].split())[:900])
                    res["evalerr"] = True
                else:
                    res["tool"] = out[-3000:]
        if crash and not res["bad"]:
            last = evs[-1].get("sl", 0) if evs else 0
            nxt = last + 1
            res["bad"] = (len(evs), "crash", crash); res["sl"] = nxt
        if res["bad"]:
            idx, clause, info = res["bad"]
            sl = res.get("sl")
            ev = evs[idx] if idx < len(evs) else {}
            if sl is None: sl = ev.get("sl", 0)
            if ev.get("e") == "case": sl -= 1        # the fault is in what the ended case left behind
            while sl < len(lines) - 1 and lines[sl].startswith("!"): sl += 1
            start = max(i for i in range(sl + 1) if lines[i].startswith("case"))
            res["replay"] = lines[start:sl + 1]; res["ev"] = ev
        if not os.environ.get("KEEP"):
            for p in (sp, tp):
                if os.path.exists(p): os.remove(p)
        return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    run = Run(a.id, a.tier, seed)
    try:
        rc = go(run)
    except Unanswered as e:
        print("NO ANSWER:", e); rc = 2
    finally:
        if not os.environ.get("KEEP"): shutil.rmtree(run.dir, ignore_errors=True)
    print("%s %s: %d design states, %d events in %d cases, %.0f s" % (a.id, a.tier, run.states, run.events, run.cases, time.time() - t0))
    sys.exit(rc)

def known_findings(pid):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]

def go(run):
    plan = jobs.plan(run.pid, run.tier)
    cfgs = sorted({j["cfg"] for j in plan["jobs"]})
    pool = cf.ThreadPoolExecutor(NPROC)
    t0 = time.time()
    build = pool.submit(subprocess.run, [os.path.join(ROOT, "harness", "build.sh"), *cfgs], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    models = {m["name"]: pool.submit(run.model, m) for m in plan["models"]}
    b = build.result()
    if b.returncode != 0: raise Unanswered("build failed\n" + b.stdout.decode(errors="replace")[-3000:])
    build_s = round(time.time() - t0, 1)
    scripts = {k: f.result() for k, f in models.items()}
    shards = []
    for ji, j in enumerate(plan["jobs"]):
        rng = random.Random("%s/%s/%d/%d" % (run.pid, j["name"], ji, run.seed))
        cases = j["cases"](rng, scripts)
        # near-equal shards by number of lines
        tot = sum(len(c) for c in cases); n = max(1, -(-tot // j.get("lines", 2500)))
        per = tot / n; cur, cnt, k = [], 0, 0
        for c in cases:
            cur.append(c); cnt += len(c)
            if cnt >= per: shards.append((j, k, cur)); cur, cnt, k = [], 0, k + 1
        if cur: shards.append((j, k, cur))
    futs = [pool.submit(run.shard, "%s-%s-%d-%d" % (j["name"], j["cfg"], plan["jobs"].index(j), k), j["cfg"], j["trace"], c) for j, k, c in shards]
    bad = []
    for f in cf.as_completed(futs):
        r = f.result()
        if "tool" in r: raise Unanswered("TLC failed on %s:\n%s" % (r["name"], r["tool"]))
        run.traces += 1; run.events += r["events"]; run.cases += r["cases"]; run.faults += r["faults"]
        run.states += r.get("d", 0); run.trans += r.get("g", 0)
        for k, v in r["ops"].items(): run.ops[k] = run.ops.get(k, 0) + v
        for i, k in enumerate(("error", "ok", "panic")): run.outcomes[k] += r["out"][i]
        if r["bad"]: bad.append(r)
    bad.sort(key=lambda r: (len(r["replay"]), r["name"]))
    known = known_findings(run.pid)
    rc = 0
    os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
    for r in bad[:5]:
        idx, clause, info = r["bad"]
        k = next((k for k in known if k["clause"] == clause and k["call"] == (r["replay"][-1] if r["replay"] else "")), None)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (run.pid, k["what"])); continue
        rp = os.path.join(WORK, "replays", "%s-%s.script" % (run.pid, r["name"]))
        with open(rp, "w") as f:
            f.write("\n".join(r["replay"]) + "\n")
        with open(rp + ".txt", "w") as f:
            f.write("clause: %s\nbuild: %s\ndetail: %s\nevent: %s\n" % (clause, r["cfg"], info, json.dumps(r["ev"])))
        print("  clause '%s' fails at: %s   [%s]" % (clause, r["replay"][-1], info[:300]))
        print("VIOLATION property=%s replay=%s" % (run.pid, rp))
        rc = 1; run.nviol += 1
    for j, k, c in shards[:3]:
        x = c[min(len(c) - 1, 1)]
        run.samples.append({"domain": j["name"], "build": j["cfg"], "case": x[:12]})
    evidence(run, plan, rc, build_s)
    return rc

def evidence(run, plan, rc, build_s):
    p = os.path.join(ROOT, "evidence"); os.makedirs(p, exist_ok=True)
    ev = {"property": run.pid, "tier": run.tier, "seed": run.seed, "level": "model_checking",
          "coverage": {
              "states": run.states, "transitions": run.trans, "traces_validated_against_impl": run.cases, "samples": run.samples,
              "trace_files": run.traces, "events_validated": run.events,
              "calls_by_operation": dict(sorted(run.ops.items())), "calls_by_outcome": run.outcomes,
              "calls_hit_by_a_fault": run.faults, "design_models": run.models, "build_seconds": build_s,
              "explanation": "states / transitions: distinct states found / states generated by TLC, summed over the design models and the "
                             "validation of the recorded executions; traces: recorded cases (one history of calls each); events: recorded calls, "
                             "each checked against the specification."},
          "assumptions": ["the executor records what the public API shows", "TLC evaluates the specification correctly"],
          "wall_s": round(time.time() - run.t0, 1), "violations": run.nviol}
    with open(os.path.join(p, run.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)

if __name__ == "__main__":
    main()
