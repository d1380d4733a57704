#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decide one property on the current working tree of /repo.
   exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer (broken build or model)."""
import os, sys, json, time, random, shutil, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from lib import V, Trouble, CPUS
import parts as PARTS

def chunks_of_calls(calls, n):
    return [calls[k:k + n] for k in range(0, len(calls), n)]

class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.ops, self.mc_info = [], {}, []
        self.failures = []
        self.random_histories = 0
        self.known, self.known_text = set(), {}

def shard(histories, n):
    r = [[] for _ in range(n)]
    load = [0] * n
    for h in sorted(histories, key=len, reverse=True):
        k = load.index(min(load))
        r[k].append(h); load[k] += len(h) + 1
    return [x for x in r if x]

def listed(pid, tag):
    """is the finding in the committed file?"""
    try: return any(l.startswith("known: property=%s %s " % (pid, tag)) for l in open(os.path.join(V, "known_findings.txt")))
    except OSError: return False

def known_consts(pid, part):
    """part.known = (tag, constant of the specification that admits the finding, function recognising it in a history)"""
    return "CONSTANT %s = %s\n" % (part.known[1], "TRUE" if listed(pid, part.known[0]) else "FALSE") if part.known else ""

def run_part(run, part, work, only=None):
    w = tempfile.mkdtemp(dir=work, prefix=part.spec + "-")
    rng = lib.AimedRandom("%d-%s-%s" % (run.seed, run.pid, part.spec))
    files = part.files or [os.path.relpath(f, lib.REPO) for f in lib.sources()]
    dic = lib.Dictionary(files)
    rng.aims = dic.fresh + [-v for v in dic.fresh]; rng.words = [list(s) for s in dic.fresh_strs if s]
    with ThreadPoolExecutor(4) as ex:
        fexe = ex.submit(lib.build_driver, part.driver, w, part.lib, part.cxx)
        if only is None:
            cfgs = part.cfgs(run.tier)
            fmc = [ex.submit(lib.run_mc, part.mc or part.spec, c, w, part.mc_timeout, part.heap, part.workers) for c in cfgs]
            extra = part.gen(rng, dic, run.tier) if part.gen else []
            hist = []
            for c, f in zip(cfgs, fmc):
                st, tr, hs, calls = f.result()
                run.states += st; run.transitions += tr
                hs = lib.drop_prefixes(hs)
                if calls: hs += chunks_of_calls(calls, part.batch)
                if part.wrap: hs = [part.wrap(h) for h in hs]
                run.mc_info.append("%s: %d states, %d transitions, %d histories" % (c, st, tr, len(hs)))
                hist += hs
            run.random_histories += len(extra)
            hist += extra
        else: hist = only
        exe = fexe.result()
    shards = shard(hist, 1 if only is not None else CPUS * part.shards)
    def one(k):
        env = part.env(w, k) if part.env else None
        trace, bad = lib.run_driver(exe, shards[k], w, "s%d" % k, env=env, timeout=part.drv_timeout)
        if bad is not None:
            n, c, reason, out = bad
            h = shards[k][n] if n < len(shards[k]) else []
            return ("crash", h, c, reason, out, trace, shards[k][:n])
        rej, counts = lib.check_trace(part.spec, trace, w, consts=part.consts + known_consts(run.pid, part))
        if part.known:
            for line in open(trace):
                t = part.known[2](json.loads(line))
                if t: run.known.add(part.known[0]); run.known_text.setdefault(part.known[0], t)
        if rej: 
            h, i = rej
            line = open(trace).read().splitlines()[h - 1]
            return ("reject", shards[k][h - 1], i - 1, "the recorded behaviour is not allowed by the specification", json.dumps(json.loads(line)[i - 1])[:1500], trace, None)
        return None
    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(one, range(len(shards))))
    for k, r in enumerate(res):
        if r is None:
            run.traces += len(shards[k])
            for h in shards[k]:
                run.events += len(h)
                for c in h: run.ops[c[0]] = run.ops.get(c[0], 0) + 1
            continue
        run.failures.append((part, r))
    if hist and only is None:
        for h in (hist[0], hist[len(hist) // 2], hist[-1]):
            run.samples.append(dict(spec=part.spec, calls=h[:12]))
    return exe, w

def confirm(run, part, r, work):
    """run the failing history again on its own; returns the failure to report or None"""
    kind, h, n, reason, detail, trace, before = r
    h2 = h[:n + 1]
    for hs in ([h2], [h], (before or [])[-200:] + [h]):
        sub = Run(run.pid, run.tier, run.seed)
        run_part(sub, part, work, only=hs)
        if sub.failures:
            k2, hh, nn, rr, dd, _, _ = sub.failures[0][1]
            return dict(history=hs if len(hs) > 1 else hh[:nn + 1], at=nn, reason=rr, detail=dd, reproduced=True)
    if kind == "reject":   # a recorded rejected trace is a violation by itself (schedules may differ when run again)
        return dict(history=h2, at=n, reason=reason, detail=detail, reproduced=False)
    return None

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--replay"); ap.add_argument("--tier")
    a = ap.parse_args()
    pid = a.property
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    run = Run(pid, tier, seed)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    code = 0
    try:
        my = PARTS.PARTS[pid]
        only = None
        if a.replay:
            rp = json.load(open(a.replay))
            my = [p for p in my if p.spec == rp["spec"]]
            hs = rp["history"]
            only = hs if hs and isinstance(hs[0][0], list) else [hs]
        for p in my: run_part(run, p, work, only)
        viol = []
        for part, r in run.failures[:4]:
            v = confirm(run, part, r, work)
            if v is None: raise Trouble("a driver failure did not reproduce: %s %s" % (r[3], r[4][-1500:]))
            v["spec"] = part.spec; v["property"] = pid
            viol.append(v)
            break
        d = os.path.join(lib.OUT, pid)
        for n, v in enumerate(viol):
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "replay-%d.json" % n)
            v["how"] = "python3 tools/check.py %s --replay %s" % (pid, p)
            json.dump(v, open(p, "w"), indent=1)
            print("%s: call %d of the history, %s\n  call: %s\n  %s" % (v["spec"], v["at"] + 1, v["reason"], json.dumps(v["history"][v["at"]] if v["at"] < len(v["history"]) else None)[:400], v["detail"][-1200:]))
            print("VIOLATION property=%s replay=%s" % (pid, p))
            code = 1
        if not a.replay:
            ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
                coverage=dict(states=run.states, transitions=run.transitions, traces_validated_against_impl=run.traces,
                    events_validated=run.events, random_histories=run.random_histories, calls_by_operation=dict(sorted(run.ops.items())),
                    models=run.mc_info, samples=run.samples[:6]),
                assumptions=["exhaustive only within the constants of the listed model configurations; beyond them seeded random histories",
                             "the driver reports what the public API returns", "TLC evaluates the specification correctly"],
                wall_s=round(time.time() - t0, 2), violations=len(viol))
            os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
            json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
        for t in sorted(run.known): print("KNOWN-FINDING: property=%s %s: %s" % (pid, t, run.known_text[t]))
        if code == 0:
            print("%s: held. %s; %d histories with %d calls validated (%d random); %.1f s" % (pid, "; ".join(run.mc_info), run.traces, run.events, run.random_histories, time.time() - t0))
    except Trouble as t:
        print("%s: no answer: %s" % (pid, t)); code = 2
    finally:
        if os.environ.get("VERIF_KEEP"): print("kept", work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)
main()
