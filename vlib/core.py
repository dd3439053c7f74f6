"""Check runner: cases in parallel, findings matching, evidence, replay."""
import collections, fnmatch, hashlib, importlib, json, multiprocessing, os, queue, random, signal, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "vlib"))
import build, e2e

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    """key: stable identity of what failed; detail: human readable evidence."""

    def __init__(self, key, detail=""):
        Exception.__init__(self, key)
        self.key = key
        self.detail = detail


class Cov:
    """What the monitors of one case observed."""

    def __init__(self):
        self.evals = 0                       # oracle evaluations
        self.counts = collections.Counter()  # event counts by kind
        self.sigs = set()                    # distinct non-trivial situations judged
        self.samples = []

    def ev(self, kind, n=1):
        self.counts[kind] += n

    def judge(self, sig=None, n=1):
        self.evals += n
        if sig is not None:
            self.sigs.add(sig if isinstance(sig, str) else repr(sig))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s[:400] if isinstance(s, str) else repr(s)[:400])


def load_known():
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line.startswith("known: "):
                    continue
                d = {}
                rest = line[len("known: "):]
                pr, rest = rest.split(" ", 1)
                kk, desc = rest.split(" -- ", 1)
                d["property"] = pr.split("=", 1)[1]
                d["key"] = kk.strip().split("=", 1)[1]
                d["desc"] = desc
                out.append(d)
    except OSError:
        pass
    return out


def _one(mod, case):
    """Run one case; returns a result dict."""
    cov = Cov()
    t0 = time.time()
    res = {"case": case, "viol": None, "error": None, "hang": None}
    try:
        mod.run_case(case, cov)
    except Violation as v:
        res["viol"] = (v.key, v.detail)
    except e2e.ProxyDied as d:
        res["viol"] = (d.key, d.text)
    except e2e.Hang as h:
        res["hang"] = "hang:" + str(h)
    except e2e.Closed as c:
        res["viol"] = ("closed:" + str(c), "a connection the workload still needed was closed\n" + traceback.format_exc())
    except Exception as x:
        res["error"] = traceback.format_exc()
        if isinstance(x, (LookupError, ValueError, TypeError, AttributeError, AssertionError, StopIteration)):
            # what was observed has a form the monitor has no place for (a reply without its parameters, say)
            f = traceback.extract_tb(x.__traceback__)[-1]
            res["shape"] = "unintelligible:%s:%s:%s" % (type(x).__name__, os.path.basename(f.filename), f.name)
    res["evals"] = cov.evals
    res["counts"] = dict(cov.counts)
    res["sigs"] = list(cov.sigs)
    res["samples"] = cov.samples
    res["wall"] = time.time() - t0
    return res


def _worker(modname, inq, outq):
    mod = importlib.import_module(modname)
    while True:
        item = inq.get()
        if item is None:
            return
        i, case = item
        outq.put(("start", i, os.getpid()))
        outq.put(("done", i, _one(mod, case)))


def run_cases(modname, cases, nproc, limit, known=(), patience=40):
    """Run all cases; a case that exceeds `limit` seconds counts as hung."""
    ctx = multiprocessing.get_context("fork")
    results = [None] * len(cases)
    inq, outq = ctx.Queue(), ctx.Queue()
    for i, c in enumerate(cases):
        inq.put((i, c))
    nproc = max(1, min(nproc, len(cases)))
    procs = {}

    def spawn():
        p = ctx.Process(target=_worker, args=(modname, inq, outq), daemon=True)
        p.start()
        procs[p.pid] = p
    for _ in range(nproc):
        spawn()
    running = {}
    done = 0
    bad, since, hung = 0, None, 0    # cases that failed, and when the first did
    while done < len(cases):
        if since is not None and (bad >= 60 or time.time() - since > patience):
            break                    # it is broken; the rest would only take time
        try:
            kind, i, val = outq.get(timeout=1)
            if kind == "start":
                running[i] = (val, time.time())
            else:
                running.pop(i, None)
                if results[i] is None:
                    results[i] = val
                    done += 1
                    if val["viol"] and val["viol"][0] not in known:
                        bad += 1
                        since = since or time.time()
                    if val["hang"]:
                        hung += 1
                        if hung >= 2 * nproc:
                            since = since or time.time()
        except queue.Empty:
            pass
        now = time.time()
        for i, (pid, t) in list(running.items()):
            dead = pid in procs and not procs[pid].is_alive()
            if now - t > limit or dead:
                if not dead:
                    os.kill(pid, signal.SIGKILL)
                procs.pop(pid, None)
                running.pop(i)
                if results[i] is None:
                    results[i] = {"case": cases[i], "viol": None, "error": None,
                                  "hang": "hang:case limit", "evals": 0, "counts": {}, "sigs": [], "samples": [],
                                  "wall": now - t}
                    if dead:
                        results[i]["error"] = "worker died"
                        results[i]["hang"] = None
                    else:
                        bad += 1
                        since = since or time.time()
                    done += 1
                spawn()
    for p in procs.values():
        p.kill()
    return results


def run_check(modname, tier, seed, replay=None):
    t0 = time.time()
    mod = importlib.import_module(modname)
    pid = mod.ID
    try:
        if hasattr(mod, "prepare"):
            mod.prepare()
    except build.BuildError as e:
        print("BUILD FAILED: %s" % e)
        return 2
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        cases = [rp["case"]]
    else:
        cases = mod.cases(tier, seed)
    only = os.environ.get("VERIF_CASE")
    if only is not None:
        cases = [c for i, c in enumerate(cases) if str(i) == only or fnmatch.fnmatch(str(c.get("kind", "")), only)]
    nproc = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
    if getattr(mod, "SERIAL", False):
        nproc = 1
    limit = getattr(mod, "CASE_LIMIT", 200)
    known = [k for k in load_known() if k["property"] == pid]
    known_keys = set(k["key"] for k in known)
    results = run_cases(modname, cases, nproc, limit, known_keys, float(os.environ.get("VERIF_PATIENCE", 40 if tier == "quick" else 300)))
    # timeouts are inconclusive: retry once, alone (pointless if something else is wrong)
    retried = 0
    if not any(r and r["viol"] and r["viol"][0] not in known_keys for r in results):
        for i, r in enumerate(results):
            if r and r["hang"]:
                retried += 1
                if retried <= 2:
                    results[i] = run_cases(modname, [cases[i]], 1, limit)[0]
                    if results[i]["hang"]:
                        break
    else:
        for r in results:
            if r and r["hang"]:
                r["hang"] = None
    # what a monitor could not make sense of is a finding only if it comes again, alone
    confirmed = 0
    for i, r in enumerate(results):
        if r and r["error"] and r.get("shape") and confirmed < 3:
            again = run_cases(modname, [cases[i]], 1, limit)[0]
            if again["viol"]:
                results[i] = again
            elif again.get("shape") == r["shape"]:
                confirmed += 1
                results[i] = dict(r, error=None, viol=(r["shape"], "the monitor could not make sense of what it observed:\n" + r["error"]))
    skipped = results.count(None)
    results = [r for r in results if r]
    if skipped:
        print("stopped early: %d cases were not run" % skipped)
    seen_known = {}
    viols, errors = [], []
    for r in results:
        if r["error"]:
            errors.append(r)
            continue
        key, detail = None, ""
        if r["hang"]:
            key = r["hang"]
        elif r["viol"]:
            key, detail = r["viol"]
        if key is None:
            continue
        for k in known:
            if k["key"] == key:
                seen_known.setdefault(k["key"], k["desc"])
                break
        else:
            viols.append((key, detail, r["case"]))
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (pid, k["desc"], "" if k["key"] in seen_known else " (not exercised in this run)"))
    counts = collections.Counter()
    sigs, samples, evals = set(), [], 0
    for r in results:
        counts.update(r["counts"])
        sigs.update(r["sigs"])
        evals += r["evals"]
        if len(samples) < 12:
            samples.extend(r["samples"])
    rc = 0
    reported = {}
    for key, detail, case in viols:
        if key in reported:
            reported[key] += 1
            continue
        reported[key] = 1
        os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
        path = os.path.join(VERIF, "out", "%s-%s.json" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            json.dump({"property": pid, "key": key, "case": case, "detail": detail}, f, indent=1)
        if len(reported) <= 8:
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  key: %s" % key)
            for l in detail.splitlines()[:60]:
                print("  | " + l)
        rc = 1
    if errors and rc == 0:
        print("CHECK ERROR in %d case(s):" % len(errors))
        print(errors[0]["error"], json.dumps(errors[0]["case"])[:500])
        rc = 3
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": mod.RULE,
                       "samples": samples[:12], "cases": len(results), "events": dict(counts),
                       "retried_timeouts": retried},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    if not replay and only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)
    slow = sorted((r["wall"] for r in results), reverse=True)[:3]
    print("%s %s: cases=%d evaluations=%d distinct=%d violations=%d wall=%.1fs slowest=%s events=%s" % (
        pid, tier, len(results), evals, len(sigs), len(reported), time.time() - t0,
        ["%.1f" % s for s in slow], dict(counts.most_common(14))))
    return rc


def case_rng(case):
    return random.Random(json.dumps(case, sort_keys=True))
