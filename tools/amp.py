#!/usr/bin/env python3
"""Runner of the AmpSim checks.

  amp.py build                     build the simulator and AmpGen (from /repo's working tree)
  amp.py check ID [--tier quick|thorough] [--budget S] [--seed N]
  amp.py replay FILE [--verbose]   re-execute a recorded violation; exit 1 if it is reproduced
  amp.py determinism ID N          run N seeds three times in separate processes and compare
"""
import contextlib, argparse, fcntl, hashlib, json, os, queue, shutil, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from meta import META

VERIF = B.VERIF
NCPU = os.cpu_count() or 4
QUICK, THOROUGH = 30.0, 600.0

def log(*a): print(*a, file=sys.stderr, flush=True)

def do_build(ID=None):
    os.makedirs(B.OUT, exist_ok=True)
    with open(os.path.join(B.OUT, ".lock"), "w") as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        return B.build(model=META[ID].get('model', False) if ID else False)

def memo_dir():
    """cache of what the real compiler makes of a source; valid for these headers and this compiler"""
    h = hashlib.sha1(subprocess.run([B.CXX, "--version"], capture_output=True).stdout)
    for d, ds, fs in os.walk(os.path.join(B.REPO, "AmpGen")):
        ds.sort()
        for f in sorted(fs): h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
    p = os.path.join(B.OUT, "memo", h.hexdigest()[:16]); os.makedirs(p, exist_ok=True); return p

class Scratch:
    def __enter__(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 200 << 20 else None
        self.d = tempfile.mkdtemp(prefix="ampsim.", dir=base); return self.d
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)

def cmdline(exe, scr, memo, w, args): return [exe, "--disk", "%s/d%s" % (scr, w), "--memo", memo] + [str(a) for a in args]

def one(exe, scr, memo, tag, args, timeout=120):
    p = subprocess.Popen(cmdline(exe, scr, memo, tag, args), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    try: out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired: p.kill(); p.communicate(); return None
    for l in out.splitlines():
        try: return json.loads(l)
        except ValueError: pass
    return None

def write_plan(path, check, seed, r, comment=()):
    with open(path, "w") as f:
        for c in comment:
            for l in str(c).splitlines(): f.write("# %s\n" % l)
        f.write("check %s\nseed %d\nreplay\n" % (check, seed))
        for k, v in r["params"].items(): f.write("param %s %d\n" % (k, v))
        for k, o in r["faults"]: f.write("fault %s %d\n" % (k, o))
        for s, t in r["sched"]: f.write("sched %d %d\n" % (s, t))

def norm(r): return {k: v for k, v in r.items() if k not in ("memo_miss",)} if r else None

def as_plan(r): return {"params": {k: v[0] for k, v in r["params"].items()}, "faults": [list(x) for x in r["faults"]], "sched": [list(x) for x in r["sched"]]}

class Minimiser:
    def __init__(s, exe, scr, memo, check, rec, limit):
        s.exe, s.scr, s.memo, s.check, s.seed, s.cls = exe, scr, memo, check, rec["seed"], rec["cls"]
        s.end = time.time() + limit; s.runs = 0; s.lock = threading.Lock(); s.lo = {k: v[1] for k, v in rec["params"].items()}
    def run(s, plan, tag="m"):
        with s.lock: s.runs += 1; n = s.runs
        p = "%s/plan%s.%d" % (s.scr, tag, n); write_plan(p, s.check, s.seed, plan)
        r = one(s.exe, s.scr, s.memo, "%s%d" % (tag, n), ["--check", s.check, "--plan", p, "--full"], 90); os.unlink(p)
        return r if r and r["status"] == 2 and r["cls"] == s.cls else None
    def first(s, cands):
        """first candidate (in order) that still fails the same way, trying NCPU at a time"""
        i = 0
        while i < len(cands) and time.time() < s.end:
            batch = cands[i:i + NCPU]; res = [None] * len(batch)
            ts = [threading.Thread(target=lambda j=j: res.__setitem__(j, s.run(batch[j], "m"))) for j in range(len(batch))]
            [t.start() for t in ts]; [t.join() for t in ts]
            for j, r in enumerate(res):
                if r: return batch[j]
            i += NCPU
        return None
    def ddmin(s, plan, key):
        n = 2; cur = plan
        if cur[key]:
            c = dict(cur); c[key] = []; 
            if s.first([c]): return c
        while len(cur[key]) >= 1 and time.time() < s.end:
            items = cur[key]; n = min(n, len(items)); sz = (len(items) + n - 1) // n; cands = []
            for i in range(0, len(items), sz): c = dict(cur); c[key] = items[:i] + items[i + sz:]; cands.append(c)
            got = s.first(cands)
            if got: cur = got; n = max(2, n - 1)
            elif sz == 1: break
            else: n = min(len(items), n * 2)
        return cur
    def go(s, plan):
        for key in ("faults", "sched"): plan = s.ddmin(plan, key)
        for k in list(plan["params"]):
            if time.time() > s.end: break
            v, lo = plan["params"][k], s.lo.get(k, plan["params"][k])
            if v == lo: continue
            cands = []
            for nv in sorted({lo, (lo + v) // 2, v - 1} - {v}): c = dict(plan); c["params"] = dict(plan["params"]); c["params"][k] = nv; cands.append(c)
            got = s.first(cands)
            if got: plan = got
        for key in ("faults", "sched"): plan = s.ddmin(plan, key)
        return plan

def confirm(exe, scr, memo, check, rec):
    """is it a repeatable execution?  returns (record, exact)"""
    again = [one(exe, scr, memo, "c%d" % i, ["--check", check, "--seed", rec["seed"], "--n", 1, "--full"]) for i in range(3)]
    bad = [r for r in again if r and r["status"] == 2]
    if not bad: return None, False
    exact = len(bad) == 3 and all(norm(r) == norm(bad[0]) for r in bad)
    return bad[0], exact

def known_findings(check):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % check):
                body = l.strip().split(" ", 2)[2]; key, _, text = body.partition(" | "); out.append((key.strip(), text.strip()))
    return out

def check(ID, tier, seed, budget=None, quiet=False):
    t0 = time.time(); m = META[ID]
    exe, stamp = do_build(ID); memo = memo_dir(); tb = time.time() - t0
    budget = budget or m.get(tier, QUICK if tier == "quick" else THOROUGH)
    cap = m.get(tier + "_runs", 10**9)
    s0 = seed * 1000003 * 1000 + 1
    agg = dict(runs=0, switches=0, steps=0, mem=0, sim_ns=0, incs=0, threads=0, timers=0, compilers=0, memo=0); fired = {}; probes = {}; faulted = 0
    scheds = set(); execs = set(); nontrivial = set(); samples = []; viol = []; odd = []; kf = known_findings(ID); kfseen = {}; first = {}
    q = queue.Queue(); stop = threading.Event(); procs = []
    with Scratch() as scr:
        def worker(w):
            p = subprocess.Popen(cmdline(exe, scr, memo, w, ["--check", ID, "--seed", s0 + w, "--stride", NCPU, "--n", (cap + NCPU - 1) // NCPU, "--budget", budget, "--least", (m.get("min_runs", 50) + NCPU - 1) // NCPU, "--timeout", 90]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            procs.append(p)
            for l in p.stdout: q.put(l)
            rc = p.wait(); q.put(("end", w, rc, p.stderr.read()[-500:]))
        ts = [threading.Thread(target=worker, args=(w,), daemon=True) for w in range(NCPU)]; [t.start() for t in ts]
        ended = 0; tw = time.time()
        while ended < NCPU:
            x = q.get()
            if isinstance(x, tuple):
                ended += 1
                if x[2] not in (0, -15, -9): log("worker %d ended with %s: %s" % (x[1], x[2], x[3])); odd.append({"seed": -1, "msg": "worker ended with %s" % x[2]})
                continue
            try: r = json.loads(x)
            except ValueError: continue
            if r["status"] == 3: odd.append(r); continue
            if r["status"] == 2:
                hit = [k for k in kf if k[0] == r["cls"]]
                if hit: kfseen[hit[0][0]] = kfseen.get(hit[0][0], 0) + 1
                else:
                    viol.append(r)
                    if not stop.is_set(): stop.set(); [p.terminate() for p in procs]
                continue
            agg["runs"] += 1
            for k in ("switches", "steps", "mem", "sim_ns", "incs", "threads", "timers", "compilers"): agg[k] += r[k]
            agg["memo"] += r["memo_miss"]
            for k, v in r["fired"].items(): fired[k] = fired.get(k, 0) + v
            for k, v in r["probes"].items(): probes[k] = probes.get(k, 0) + v
            faulted += bool(r["fired"]); scheds.add(r["sched_hash"]); key = (r["sched_hash"], r["log_hash"]); execs.add(key)
            if r["switches"] >= 2 or r["fired"]: nontrivial.add(key)
            if len(first) < 400 and not stop.is_set(): first[r["seed"]] = r
        tsearch = time.time() - tw
        # every run must be a function of its seed: repeat a sample in fresh processes
        det = mism = 0
        if not viol:
            pick = sorted(first)[:: max(1, len(first) // 32)][:32]
            for sd in pick:
                r = one(exe, scr, memo, "r", ["--check", ID, "--seed", sd, "--n", 1]); det += 1
                if norm(r) != norm(first[sd]): mism += 1; log("seed %d is not repeatable" % sd)
            for sd in pick[:3]:
                r = one(exe, scr, memo, "s", ["--check", ID, "--seed", sd, "--n", 1, "--full"])
                if r: samples.append({"seed": sd, "params": dict(list((k, v[0]) for k, v in r["params"].items())[:40]), "schedule": r["sched"][:60], "switches": r["switches"], "faults": r["faults"][:40], "events": r.get("log", "")[-800:]})
        # runs without a verdict are repeated alone before they count as trouble
        trouble = []
        for r in odd[:20]:
            if r["seed"] < 0: trouble.append(r); continue
            a = one(exe, scr, memo, "o", ["--check", ID, "--seed", r["seed"], "--n", 1, "--timeout", 100])
            if not a or a["status"] == 3: trouble.append(a or r)
            elif a["status"] == 2: viol.append(a)
            else: agg["runs"] += 1
        rc = 0; replay = None; nviol = 0; minfo = None
        for r in viol[:4]:
            rec, exact = confirm(exe, scr, memo, ID, r)
            if not rec: log("seed %d: violation did not repeat: %s %s" % (r["seed"], r["cls"], r["msg"])); trouble.append(r); continue
            nviol += 1; plan = as_plan(rec); mn = Minimiser(exe, scr, memo, ID, rec, m.get("minimise_s", 60)); n0 = (len(plan["faults"]), len(plan["sched"]))
            if mn.run(plan): plan = mn.go(plan)
            final = mn.run(plan); twice = mn.run(plan); ok = bool(final) and norm(final) == norm(twice)
            d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True); replay = os.path.join(d, "%s-%d.plan" % (ID, rec["seed"]))
            if not ok:   # fall back to the seed itself
                with open(replay, "w") as f: f.write("# %s: %s\n# minimised plan is not exact; the seed alone reproduces\ncheck %s\nseed %d\n" % (rec["cls"], rec["msg"], ID, rec["seed"]))
            else:
                write_plan(replay, ID, rec["seed"], plan, ["property %s violated: %s" % (ID, final["cls"]), final["msg"], "seed %d repeats exactly: %s; faults %d -> %d, switches %d -> %d after %d trial runs" % (rec["seed"], exact, n0[0], len(plan["faults"]), n0[1], len(plan["sched"]), mn.runs), "events:", final.get("log", "")[-6000:]])
            minfo = dict(seed=rec["seed"], cls=rec["cls"], msg=rec["msg"], replay=replay, exact=exact and ok, faults=plan["faults"], switches=len(plan["sched"]))
            log("%s: %s (seed %d, %d faults, %d forced switches left of %d/%d)" % (rec["cls"], rec["msg"], rec["seed"], len(plan["faults"]), len(plan["sched"]), n0[0], n0[1]))
            print("VIOLATION property=%s replay=%s" % (ID, replay), flush=True); rc = 1; break
    wall = time.time() - t0
    cov = dict(evaluations=agg["runs"], distinct_nontrivial=len(nontrivial),
               rule="one evaluation = one complete simulated execution decided by its seed (workload parameters, every thread switch, every fault); " + m["rule"] +
                    "; distinct = different (schedule hash, event-log hash); non-trivial = at least two thread switches or at least one injected fault",
               samples=samples, runs_and_seeds_per_hour=int(agg["runs"] / max(tsearch, 1e-3) * 3600), first_seed=s0,
               simulated_seconds=round(agg["sim_ns"] * 1e-9, 3), runs_with_faults=faulted, faults_injected=fired, conditions_reached=probes,
               distinct_interleavings=len(scheds), interleaving_measure="hash of the sequence of (from thread, to thread) context switches of a run",
               distinct_executions=len(execs), scheduling_points=agg["steps"], context_switches=agg["switches"], instrumented_memory_accesses=agg["mem"], simulated_processes=agg["incs"], simulated_threads=agg["threads"], timers_fired=agg["timers"], simulated_compiler_runs=agg["compilers"], real_compiler_runs=agg["memo"],
               determinism=dict(seeds_repeated=det, differences=mism), runs_without_verdict=len(trouble), known_findings_seen=kfseen, search_s=round(tsearch, 2), build_s=round(tb, 2),
               components_real=m["real"], components_stub=m["stub"], build=stamp)
    if minfo: cov["violation"] = minfo
    ev = dict(property=ID, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=m["assume"], wall_s=round(wall, 2), violations=nviol)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ID + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k, t in kf: print("KNOWN-FINDING: property=%s %s" % (ID, t or k), flush=True)
    if rc == 0 and trouble: log("no verdict for %d runs: %s" % (len(trouble), [(r.get("seed"), r.get("msg")) for r in trouble[:3]])); rc = 2
    if rc == 0 and agg["runs"] < 10: log("only %d runs" % agg["runs"]); rc = 2
    if not quiet: log("%s %s: %d runs, %d distinct executions, %d interleavings, faults %s, %.1f s, exit %d" % (ID, tier, agg["runs"], len(execs), len(scheds), fired, wall, rc))
    return rc

def replay(path, verbose):
    exe, _ = do_build([l.split()[1] for l in open(path) if l.startswith("check ")][0]); memo = memo_dir()
    with Scratch() as scr:
        rs = [one(exe, scr, memo, "x%d" % i, ["--plan", path, "--full"]) for i in range(2)]
        r = rs[0]
        if not r: print("no result"); return 2
        if verbose: print(r.get("log", ""))
        print("%s: %s %s (identical twice: %s)" % ({1: "no violation", 2: "VIOLATION", 3: "no verdict"}.get(r["status"]), r["cls"], r["msg"], norm(rs[0]) == norm(rs[1])))
        if r["status"] == 2:
            ck = [l.split()[1] for l in open(path) if l.startswith("check ")][0]; print("VIOLATION property=%s replay=%s" % (ck, path)); return 1
        return 0 if r["status"] == 1 else 2

def determinism(ID, n):
    exe, _ = do_build(ID); memo = memo_dir()
    with Scratch() as scr:
        def batch(k): 
            ps = [subprocess.Popen(cmdline(exe, scr, memo, "%d.%d" % (k, w), ["--check", ID, "--seed", 1 + w, "--stride", NCPU, "--n", n // NCPU]), stdout=subprocess.PIPE, text=True) for w in range(NCPU)]
            outs = [None] * NCPU; ts = [threading.Thread(target=lambda w=w: outs.__setitem__(w, ps[w].communicate()[0])) for w in range(NCPU)]; [t.start() for t in ts]; [t.join() for t in ts]
            return [norm(json.loads(l)) for o in outs for l in o.splitlines()]
        a = batch(0); diff = 0
        for k in (1, 2): diff += sum(x != y for x, y in zip(a, batch(k)))
        print("%s: %d seeds x 3 processes, %d differences" % (ID, len(a), diff)); return 1 if diff else 0

if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("cmd"); ap.add_argument("arg", nargs="*"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--budget", type=float); ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1)); ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    try:
        if a.cmd == "build": print(do_build()[0]); sys.exit(0)
        if a.cmd == "setup":   # build, then let the real compiler see the sources the compilation checks will ask for
            print(do_build()[0], flush=True)
            for ID in ("P08", "P09", "P10", "P11", "P12", "P21", "P22", "P23", "P25", "P29", "P30", "P31", "P33"):
                with contextlib.redirect_stdout(sys.stderr): check(ID, "quick", a.seed, a.budget or 25)
            sys.exit(0)
        if a.cmd == "check": sys.exit(check(a.arg[0], a.tier, a.seed, a.budget))
        if a.cmd == "replay": sys.exit(replay(a.arg[0], a.verbose))
        if a.cmd == "determinism": sys.exit(determinism(a.arg[0], int(a.arg[1])))
    except B.BuildError as e: log(str(e)); sys.exit(2)
    sys.exit(2)
