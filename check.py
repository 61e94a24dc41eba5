#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--replay FILE] [--law NAME]

Decides one property: builds its harness from /repo's current tree, runs all of
its laws on generated cases (in parallel, each a pure function of the code and
VERIF_SEED), replays every failure three times, writes evidence/<id>.json.
exit 0: held on everything explored; exit 1: VIOLATION line printed;
exit 2: error of the check itself (for example the tree does not compile).
"""
import json, os, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/lib")
sys.dont_write_bytecode = True
import build as B
from props import PROPS

ENV = dict(os.environ)
ENV.update({"OMPI_MCA_ess_singleton_isolated": "1", "OMPI_MCA_btl": "self,vader", "OMPI_MCA_rmaps_base_oversubscribe": "1",
            "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
            "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_plm_rsh_agent": "",
            "OMPI_MCA_hwloc_base_binding_policy": "none",
            "OMP_NUM_THREADS": "1", "DEAL_II_NUM_THREADS": "1", "NATRIUM_DIR": B.REPO, "LC_ALL": "C"})


def known_findings(pid):
    """entries of known_findings.jsonl for this property: {"property","law","key","what"}"""
    out = []
    try:
        for line in open(VERIF + "/known_findings.jsonl"):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            e = json.loads(line)
            if e.get("property") == pid:
                out.append(e)
    except OSError:
        pass
    return out


class Runner:
    def __init__(self, pid, exe, scratch):
        self.pid, self.exe, self.scratch = pid, exe, scratch

    def run(self, args, name, timeout):
        """-> (returncode or 'timeout', output)"""
        cwd = os.path.join(self.scratch, name)
        os.makedirs(cwd, exist_ok=True)
        env = dict(ENV, NATRIUM_HOME=cwd + "/home", TMPDIR=cwd, OMPI_MCA_orte_tmpdir_base=cwd, PBT_EXE=self.exe, PBT_SCRATCH=cwd)
        os.makedirs(cwd + "/home", exist_ok=True)
        with open(cwd + "/log.txt", "wb") as log:
            p = subprocess.Popen([self.exe] + args, cwd=cwd, env=env, stdout=log, stderr=subprocess.STDOUT,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        with open(cwd + "/log.txt", "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 6000))
            text = f.read().decode("utf8", "replace")
        return rc, text


def main():
    pid = sys.argv[1]
    opts = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    tier = opts.get("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[pid]
    t0 = time.time()
    scratch_base = VERIF + "/work"
    os.makedirs(scratch_base, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid + ".", dir=scratch_base)
    try:
        rc = check(pid, P, tier, seed, opts, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def check(pid, P, tier, seed, opts, scratch, t0):
    try:
        exe = B.build(pid, P["src"], P.get("groups"), chunks=P.get("chunks", 8 - len(P["src"])),
                      verbose=bool(os.environ.get("VERIF_VERBOSE")))
    except RuntimeError as e:
        print("ERROR: %s" % e)
        return 2
    t_build = time.time() - t0
    R = Runner(pid, exe, scratch)
    if "--replay" in opts:
        rc, out = R.run(["--replay", os.path.abspath(opts["--replay"])], "replay", 600)
        print(out)
        if rc not in (0,):
            print("VIOLATION property=%s replay=%s" % (pid, opts["--replay"]))
            return 1
        return 0
    known = known_findings(pid)
    known_file = scratch + "/known.txt"
    with open(known_file, "w") as f:
        for k in known:
            f.write(k["key"] + "\n")
    laws = []
    for line in subprocess.run([exe, "--list"], env=ENV, stdout=subprocess.PIPE, text=True).stdout.splitlines():
        w = line.split()
        if w and w[0] == "LAW":
            laws.append((w[1], int(w[2]), int(w[3]), int(w[4])))
    if not laws:
        print("ERROR: the harness lists no laws")
        return 2
    if "--law" in opts:
        laws = [l for l in laws if l[0] == opts["--law"]]
    # the case counts bound a run; the time limits only keep a slow machine within the check's total
    maxsec = P.get("maxsec", 240) if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_MAXSEC", 3000))
    jobs = []
    for name, q, t, shards in laws:
        n = q if tier == "quick" else t
        if tier != "quick":
            shards = max(shards, min(8, n))
        for s in range(min(shards, max(1, n))):
            c = n // shards + (1 if s < n % shards else 0)
            if c:
                jobs.append((name, c, s))

    def one(job):
        name, n, s = job
        out = "%s/%s.%d.json" % (scratch, name, s)
        rc, log = R.run(["--law", name, "--cases", str(n), "--seed", str(seed), "--shard", str(s), "--out", out,
                         "--known", known_file, "--maxsec", str(maxsec)], "%s.%d" % (name, s), maxsec + 240)
        res = None
        try:
            res = json.load(open(out))
        except Exception:
            pass
        return job, rc, log, out, res

    t1 = time.time()
    with ThreadPoolExecutor(P.get("parallel", 8)) as ex:
        results = list(ex.map(one, jobs))
    t_run = time.time() - t1

    violations, errors, inconclusive = [], [], []
    agg = {}
    known_hits = {}
    os.makedirs(VERIF + "/work/replays", exist_ok=True)

    def confirm(text, label, name):
        """saves the replay file and replays it three times"""
        path = "%s/work/replays/%s-%s.replay" % (VERIF, pid, name)
        with open(path, "w") as f:
            f.write(text)
        fails, last = 0, ""
        for i in range(3):
            rc, out = R.run(["--replay", path], "replay-%s-%d" % (name, i), 400)
            if rc != 0:
                fails += 1
                last = out
        return path, fails, last

    for (name, n, s), rc, log, out, res in results:
        a = agg.setdefault(name, {"evaluations": 0, "discarded": 0, "nontrivial": 0, "distinct_nontrivial": 0,
                                  "classes": {}, "samples": [], "stopped_early": False, "wall_s": 0})
        if res:
            for k in ("evaluations", "discarded", "nontrivial", "distinct_nontrivial"):
                a[k] += res[k]
            a["wall_s"] = round(max(a["wall_s"], res["wall_s"]), 2)
            a["stopped_early"] |= res["stopped_early"]
            for k, v in res["classes"].items():
                a["classes"][k] = a["classes"].get(k, 0) + v
            a["samples"] = (a["samples"] + res["samples"])[:2]
            for k, v in res["known"].items():
                h = known_hits.setdefault(k, {"n": 0, "msg": v["msg"]})
                h["n"] += v["n"]
        if rc == 0 and res:
            continue
        if any(v["law"] == name for v in violations):
            continue
        if res and res["failure"]:
            f = res["failure"]
            path, fails, last = confirm(open(f["replay"]).read(), f["msg"], "%s.%d" % (name, s))
            if fails:
                violations.append({"law": name, "key": f["key"], "msg": f["msg"], "case": f["case"], "replay": path,
                                   "reproduced": "%d/3" % fails})
                continue
            # not a function of the saved case alone: does the whole history fail again?
            job, rc2, log2, out2, res2 = one((name, n, s))
            if rc2 != 0 and res2 and res2["failure"]:
                violations.append({"law": name, "key": f["key"], "msg": f["msg"], "case": f["case"], "replay": path,
                                   "reproduced": "only as part of the whole run (seed %d, shard %d)" % (seed, s)})
            else:
                inconclusive.append({"law": name, "msg": "not reproducible: " + f["msg"]})
            continue
        # no result: the process died or hung
        crash = out + ".crash"
        why = "time limit of the law" if rc == "timeout" else "process ended with %s" % rc
        if os.path.exists(crash) and os.path.getsize(crash):
            text = open(crash).read()
            sig = [l.split()[1] for l in text.splitlines() if l.startswith("signal")]
            why = "signal %s" % (sig[0] if sig else "?")
            if sig and sig[0] == str(int(signal.SIGVTALRM)):
                why = "a case did not finish within the processor time allowed for one case"
            path, fails, last = confirm(text + "# %s\n" % why, why, "%s.%d" % (name, s))
            if fails:
                violations.append({"law": name, "key": "crash", "msg": why, "case": "", "replay": path,
                                   "reproduced": "%d/3" % fails})
                continue
        elif os.path.exists(out + ".replay"):
            path, fails, last = confirm(open(out + ".replay").read(), why, "%s.%d" % (name, s))
            if fails:
                violations.append({"law": name, "key": "?", "msg": "see the replay file", "case": "", "replay": path,
                                   "reproduced": "%d/3" % fails})
                continue
        job, rc2, log2, out2, res2 = one((name, n, s))
        if rc2 == 0 and res2:
            inconclusive.append({"law": name, "msg": why + ", not reproducible"})
        elif rc2 == rc and rc != "timeout":
            path = "%s/work/replays/%s-%s.%d.history" % (VERIF, pid, name, s)
            with open(path, "w") as f:
                f.write("# %s; reproduce with: VERIF_SEED=%d check.py %s --law %s\n%s" % (why, seed, pid, name, log[-3000:]))
            violations.append({"law": name, "key": "crash", "msg": why, "case": log[-500:], "replay": path,
                               "reproduced": "by running the law again"})
        else:
            errors.append({"law": name, "msg": why, "log": log[-1500:]})

    total = sum(a["evaluations"] for a in agg.values())
    distinct = sum(a["distinct_nontrivial"] for a in agg.values())
    samples = []
    for n, a in agg.items():
        for s_ in a["samples"]:
            samples.append({"law": n, "case": s_})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total, "distinct_nontrivial": distinct, "rule": P["rule"],
                       "samples": samples[:24],
                       "laws": {n: {k: v for k, v in a.items() if k != "samples"} for n, a in agg.items()},
                       "known_findings_hit": {k: v["n"] for k, v in known_hits.items()},
                       "inconclusive": inconclusive, "build_s": round(t_build, 1), "run_s": round(t_run, 1)},
          "assumptions": P.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for n, a in sorted(agg.items()):
        print("%-34s cases=%-6d nontrivial=%-6d distinct=%-6d discarded=%-4d %.1fs%s" % (n, a["evaluations"],
              a["nontrivial"], a["distinct_nontrivial"], a["discarded"], a["wall_s"],
              " (stopped early)" if a["stopped_early"] else ""))
        if os.environ.get("VERIF_VERBOSE"):
            print("      classes: %s" % json.dumps(a["classes"]))
            for s_ in a["samples"][:1]:
                print("      sample: %s" % s_[:400])
    for k in known:
        hit = known_hits.get(k["key"])
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["what"], " (seen %d times in this run)" % hit["n"] if hit else ""))
    for i in inconclusive:
        print("inconclusive: %s: %s" % (i["law"], i["msg"][:500]))
    for v in violations:
        print("law %s, key %s (reproduced %s):\n  %s\n  %s" % (v["law"], v["key"], v["reproduced"], v["msg"][:1500],
              v["case"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.0fs, run %.0fs" % (pid, tier, seed, total, distinct,
          t_build, t_run))
    sys.stdout.flush()
    if violations:
        return 1
    if errors:
        for e in errors:
            print("ERROR law %s: %s\n%s" % (e["law"], e["msg"], e["log"]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
