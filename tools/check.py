#!/usr/bin/env python3
"""check.py <property> [--replay FILE]   (VERIF_SEED, VERIF_TIER)

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the check could not decide (build or harness failure, time out)."""
import glob, json, os, re, struct, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Builder, BuildError, Outcome, run_shard, JOBS
import plans

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
VERIF = vlib.VERIF


def load_known(pid):
    """lines `KNOWN property=<id> key=<key> ...`; fixed: lines suppress nothing"""
    d = {}
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            m = re.match(r"KNOWN property=(\S+) key=(\S+)\s*(.*)", l)
            if m and m.group(1) == pid:
                d[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return d


class Check:
    def __init__(self, pid):
        self.pid, self.plan = pid, plans.PLANS[pid]
        self.t0 = time.time()
        self.evals, self.hashes, self.extra_distinct = 0, set(), 0
        self.counts, self.samples, self.knowns = {}, [], {}
        self.violations, self.errors = [], []
        self.hash_overlap = 0

    def absorb(self, res, tag=""):
        self.evals += res["evals"]
        for k, v in res["counts"].items():
            if k.startswith("max:"):
                self.counts[k] = max(self.counts.get(k, 0), v)
            else:
                self.counts[k] = self.counts.get(k, 0) + v
        for s in res["samples"]:
            if len(self.samples) < 8:
                self.samples.append(res["mode"] + tag + " " + s)
        self.knowns.update(res["knowns"])

    def add_hashes(self, path, flavour):
        try:
            b = open(path, "rb").read()
        except OSError:
            return []
        return [(flavour, h) for h in struct.unpack("<%dQ" % (len(b) // 8), b)]

    def shards(self, b, binary, r):
        """one harness run, split over shards"""
        n = r.get("nshards", JOBS)
        cases = r["cases"][1 if TIER == "thorough" else 0]
        tmo = r.get("timeout", (300, 3000))[1 if TIER == "thorough" else 0]
        env = dict(r.get("env", {}))
        if r.get("server"):
            env["VF_SERVER"] = b.server()
        futs = []
        for s in range(n):
            argv = ["--mode", r["mode"], "--seed", str(SEED), "--cases", str(cases), "--shard", str(s), "--nshards", str(n)]
            if TIER == "thorough":
                argv.append("--thorough")
            out = os.path.join(b.dir, "%s-%s-%s-%d" % (r["mode"], r["flavour"], r.get("tag", ""), s))
            futs.append((s, argv, out, b.pool.submit(run_shard, binary, argv, out, tmo, env)))
        outs, hung = [], False
        for s, argv, out, f in futs:
            o = f.result()
            o.shard = s
            o.flavour, o.env = r["flavour"], env
            if o.kind == "timeout":
                # once more, alone: only the unit it was at
                a2 = argv + ["--only", str(o.unit)]
                o2 = run_shard(binary, a2, out + "x", 100, env) if not hung else Outcome("timeout")
                hung = hung or o2.kind == "timeout"
                if o2.kind == "timeout":
                    o.kind, o.msg = "violation", "unit %d does not end (twice; the second time alone for 100 s)" % o.unit
                elif o2.kind == "violation":
                    o2.shard, o2.flavour, o2.env = s, r["flavour"], env
                    o = o2
                else:
                    o.kind, o.msg = "error", "time out in unit %d, which ends when run alone" % o.unit
            outs.append((o, out))
        allh = []
        for o, out in outs:
            if o.kind == "ok":
                self.absorb(o.res, "/" + r["flavour"])
                h = self.add_hashes(out + ".hash", r.get("hashkey", r["flavour"]))
                if r.get("ids"):
                    allh += h
                self.hashes.update(h)
            elif o.kind == "violation":
                if o.res:
                    self.absorb(o.res, "/" + r["flavour"])
                self.violations.append(o)
            else:
                self.errors.append("%s/%s shard %d: %s %s" % (r["mode"], r["flavour"], o.shard, o.key, o.msg))
        if r.get("ids") and len(set(allh)) != len(allh):
            self.violations.append(Outcome("violation", "duplicate-id", "two processes of this run produced the same transaction id (%d collisions)" % (len(allh) - len(set(allh)))))
        return [out for o, out in outs if o.kind == "ok"]

    def fuzz(self, b):
        """coverage-guided runs, one process per core"""
        runs = self.plan["fuzz"][1 if TIER == "thorough" else 0]
        n = JOBS
        binary = b.binary("fuzz")
        futs = [b.pool.submit(vlib.run_fuzz, binary, b.dir, self.pid, s, SEED * 64 + s, runs, 300 if TIER == "quick" else 4000) for s in range(n)]
        for s, f in enumerate(futs):
            o = f.result()
            o.shard = s
            if o.res:
                self.absorb(o.res, "/fuzz")
                self.hashes.update(self.add_hashes(os.path.join(b.dir, "fuzz-%d.hash" % s), "fuzz"))
            if o.kind == "violation":
                o.flavour = "fuzz"
                if o.raw:
                    rd = os.path.join(VERIF, "evidence", "replay")
                    os.makedirs(rd, exist_ok=True)
                    o.argv = ["fuzz", self.pid, os.path.join(rd, "%s-fuzz-%d-%d.bin" % (self.pid, SEED, s))]
                    open(o.argv[2], "wb").write(o.raw)
                self.violations.append(o)
            elif o.kind != "ok":
                self.errors.append("fuzz shard %d: %s %s" % (s, o.key, o.msg))

    def finish(self):
        known = load_known(self.pid)
        real = []
        for o in self.violations:
            if o.key in known:
                self.knowns[o.key] = o.msg
            else:
                real.append(o)
        for k, m in list(self.knowns.items()):
            if k not in known:
                real.append(Outcome("violation", k, m))
        p = self.plan
        lvl = p.get("level", "exploration")
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.hashes) + self.extra_distinct, "rule": p["rule"],
               "samples": self.samples or ["none"], "observed": dict(sorted(self.counts.items()))}
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": lvl, "coverage": cov, "assumptions": p.get("assumptions", []) + plans.COMMON,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.pid + ".json")
        json.dump(ev, open(path + ".tmp", "w"), indent=1)
        os.replace(path + ".tmp", path)
        for k in sorted(self.knowns):
            if k in known:
                print("KNOWN-FINDING: property=%s key=%s %s" % (self.pid, k, self.knowns[k][:300]))
        if real:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-%d.json" % (self.pid, TIER, SEED))
            json.dump([{"property": self.pid, "key": o.key, "message": o.msg, "flavour": getattr(o, "flavour", ""), "argv": o.argv, "unit": o.unit, "input_hex": o.inp,
                        "log": o.log[:20000]} for o in real], open(rp, "w"), indent=1)
            for o in real[:5]:
                print("  %s: %s (unit %s)" % (o.key, o.msg[:600], o.unit))
                if o.inp:
                    print("    input %s" % o.inp[:400])
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        low = [k for k, v in p.get("need", {}).items() if self.counts.get(k, 0) < v]
        if low and not self.errors:
            self.errors.append("the run observed too little: " + ", ".join("%s=%d" % (k, self.counts.get(k, 0)) for k in low))
        if self.errors:
            for e in self.errors[:10]:
                print("ERROR", e[:1000])
            return 2
        print("held: property=%s %d evaluations, %d distinct, %.1f s" % (self.pid, self.evals, cov["distinct_nontrivial"], time.time() - self.t0))
        return 0

    def main(self):
        b = Builder()
        self.b = b
        try:
            flav = []
            for r in self.plan["runs"]:
                if r["flavour"] not in flav:
                    flav.append(r["flavour"])
            if flav:
                b.start(flav)
            if self.plan.get("fuzz"):
                b.start_fuzz()
            if any(r.get("server") for r in self.plan["runs"]):
                b.server()
            hook = self.plan.get("before")
            if hook:
                hook(self, b, TIER, SEED)
            outs = {}
            for r in self.plan["runs"]:
                if TIER == "quick" and r.get("thorough_only"):
                    continue
                binary = b.binary(r["flavour"])
                outs[(r["mode"], r["flavour"])] = self.shards(b, binary, r)
            if self.plan.get("fuzz"):
                self.fuzz(b)
            hook = self.plan.get("after")
            if hook:
                hook(self, b, TIER, SEED, outs)
            return self.finish()
        except BuildError as e:
            print("ERROR build failed:", str(e)[-3000:])
            return 2
        finally:
            b.clean()


def replay(path):
    for v in json.load(open(path)):
        print(v["key"], v["message"])
        if not v.get("argv") or v["flavour"] not in vlib.FLAV:
            continue
        b = Builder()
        try:
            if v["flavour"] == "fuzz":
                b.start_fuzz()
                vlib.replay_fuzz(b.binary("fuzz"), b.dir, v["argv"][1], v["argv"][2])
                continue
            b.start([v["flavour"]])
            env = {"VF_SERVER": b.server(), "VF_STDERR": "1"}
            argv = v["argv"] + (["--only", str(v["unit"])] if v["unit"] >= 0 else [])
            o = run_shard(b.binary(v["flavour"]), argv, os.path.join(b.dir, "replay"), 200, env)
            print(o.kind, o.key, o.msg, "\n", o.log[:6000])
        finally:
            b.clean()
    return 0


if __name__ == "__main__":
    if "--replay" in sys.argv:
        sys.exit(replay(sys.argv[sys.argv.index("--replay") + 1]))
    try:
        rc = Check(sys.argv[1]).main()
    except Exception as e:
        import traceback
        traceback.print_exc()
        print("ERROR", e)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
