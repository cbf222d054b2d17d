#!/usr/bin/env python3
"""check.py <property> [--thorough] [--only HARNESS] [--sym|--conc]

Decides one property against /repo's current tree; see DESIGN.md."""
import sys, os, time, json, random, hashlib, traceback, pickle, importlib

VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("DV_CHILD") != "1" and os.path.exists(VENV):
    env = dict(os.environ)
    env.update({"DV_CHILD": "1", "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0",
                "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})
    env.setdefault("MPLCONFIGDIR", "/opt/vp/mplconfig")
    env.pop("PYTHONPATH", None)
    os.execve(VENV, [VENV, "-W", "ignore"] + [os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import multiprocessing as mp  # noqa: E402

T0 = time.time()
REPO = os.environ.get("DV_REPO", "/repo")


def sym_job(h, seconds, opts):
    from dv import symvc
    r = symvc.SymRun(h, time.time() + seconds, opts)
    r.explore(opts.get("max_paths", 20000))
    return r.result()


def conc_job(h, seed, runs, seconds, thorough, fixed=None, stop=True, deep=False):
    """random runs of a harness on the real code"""
    from dv import concvc
    from dv.common import enc
    concvc.setup()
    rng = random.Random(seed)
    t0 = time.time()
    out = {"name": h.name, "runs": 0, "passed": 0, "discarded": 0, "checks": 0, "fails": [], "distinct": set(),
           "samples": [], "reached": {}}
    for _ in range(runs):
        st, name, detail, used, checks, reached = concvc.run_once(h, rng, dict(fixed) if fixed else None, thorough, deep)
        out["runs"] += 1
        out["checks"] += checks
        for k, v in reached.items():
            out["reached"][k] = out["reached"].get(k, 0) + v
        if st == "discard":
            out["discarded"] += 1
        else:
            e = {k: enc(v) for k, v in used.items()}
            if st == "fail":
                out["fails"].append({"name": name, "detail": detail, "inputs": e})
                if stop:
                    break
            else:
                out["passed"] += 1
                if checks:
                    out["distinct"].add(hashlib.md5(json.dumps(e, sort_keys=True).encode()).hexdigest())
                if len(out["samples"]) < 2:
                    out["samples"].append({"harness": h.name, "inputs": e, "checks": checks})
        if time.time() - t0 > seconds:
            break
    return out


def replay_job(h, inputs):
    from dv import concvc
    from dv.common import enc
    concvc.setup()
    st, name, detail, used, checks, reached = concvc.run_once(h, random.Random(0), dict(inputs), False)
    return {"status": st, "name": name, "detail": detail, "inputs": {k: enc(v) for k, v in used.items()}}


def _child(conn, fn, args):
    os.setpgrp()
    try:
        r = ("ok", fn(*args))
    except BaseException as e:
        r = ("crash", "".join(traceback.format_exception(e))[-3000:])
    try:
        conn.send(r)
        conn.close()
    finally:
        os._exit(0)


class Pool:
    def __init__(self, n):
        self.n = n
        self.mp = mp.get_context("fork")

    def run(self, jobs):
        """jobs: list of (key, fn, args, hard_limit_s) -> {key: result}"""
        res = {}
        todo = list(jobs)
        live = []
        while todo or live:
            while todo and len(live) < self.n:
                key, fn, args, limit = todo.pop(0)
                a, b = self.mp.Pipe(False)
                p = self.mp.Process(target=_child, args=(b, fn, args))
                p.start()
                b.close()
                live.append((key, p, a, time.time() + limit))
            mp.connection.wait([l[2] for l in live], timeout=1)
            nxt = []
            for key, p, a, t in live:
                if a.poll():
                    try:
                        res[key] = a.recv()
                    except (EOFError, pickle.UnpicklingError, OSError) as e:
                        res[key] = ("crash", f"worker died: {e!r}")
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                elif not p.is_alive() and not a.poll():
                    res[key] = ("crash", f"worker died ({p.exitcode})")
                elif time.time() > t:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        p.kill()
                    p.join(5)
                    res[key] = ("crash", "time limit of the worker")
                else:
                    nxt.append((key, p, a, t))
            live = nxt
        return res


def known_findings(prop):
    out = []
    try:
        for line in open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: property="):
                rest = line[len("known: property="):]
                pid, _, what = rest.partition(" ")
                if pid == prop:
                    tag, _, text = what.partition(" :: ")
                    out.append((tag.strip(), text.strip()))
    except OSError:
        pass
    return out


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    flags = [a for a in sys.argv[1:] if a.startswith("-")]
    prop = args[0].upper()
    only = None
    deep = "--deep" in flags        # for trying the longer sequences on the unchanged tree
    for f in flags:
        if f.startswith("--only="):
            only = f[7:].split(",")
    thorough = "--thorough" in flags or (os.environ.get("VERIF_TIER") == "thorough")
    verbose = "-v" in flags
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = "thorough" if thorough else "quick"
    spec = importlib.import_module("specs." + prop.lower())
    hs = [h for h in spec.HARNESSES if only is None or h.name in only]
    byname = {h.name: h for h in hs}
    assert len(byname) == len(hs), "duplicate harness names"
    from dv import symvc, concvc  # noqa: F401  (loaded once, before forking)
    from dv.common import enc, dec

    pool = Pool(min(8, os.cpu_count() or 8))
    try:
        symvc.TOKENS = pool.mp.Semaphore(6)
    except OSError:
        pass
    jobs = []
    sym_s = 900 if thorough else 240
    for h in sorted(hs, key=lambda h: -h.weight):
        if h.sym and "--conc" not in flags:
            o = dict(h.topts if thorough and getattr(h, "topts", None) else {})
            jobs.append((("sym", h.name), sym_job, (h, o.pop("seconds", sym_s), o), sym_s + 60))
    for h in sorted(hs, key=lambda h: -h.weight):
        if h.conc and "--sym" not in flags:
            runs = h.runs * (20 if thorough else 1)
            secs = (h.cseconds or 8) * (15 if thorough else 1)
            jobs.append((("conc", h.name), conc_job, (h, f"{seed}-{h.name}", runs, secs, thorough, None, True, deep), secs * 3 + 120))
    res = pool.run(jobs)

    violations = []      # (harness, obligation, inputs or None, text)
    undecided = []
    tool = []
    phase2 = []
    symres, concres = {}, {}
    for (kind, n), (st, r) in res.items():
        if st != "ok":
            tool.append(f"{kind} {n}: {r}")
            continue
        if kind == "sym":
            symres[n] = r
        else:
            concres[n] = r
            for f in r["fails"]:
                violations.append((n, f["name"], f["inputs"], f["detail"]))
    # replay the counter-models on the real code
    seen = {}
    for n, r in symres.items():
        for i, f in enumerate(r["fails"]):
            if f["inputs"] is not None and seen.get(n, 0) < 12 and byname[n].conc:
                seen[n] = seen.get(n, 0) + 1
                phase2.append((("replay", n, i), replay_job, (byname[n], f["inputs"]), 120))
    hit = set()
    rep2 = {}
    if phase2 and not violations:
        rep2 = pool.run(phase2)
        for (k, n, i), (st, r) in rep2.items():
            if st == "ok" and r["status"] == "fail":
                f = symres[n]["fails"][i]
                violations.append((n, r["name"], r["inputs"], f"counter-model of obligation '{f['name']}' replayed. {r['detail']}"))
                hit.add(n)
    # failed obligations without a replayed input: search near the failing path
    failing = [n for n, r in symres.items() if r["fails"] and n not in hit]
    if failing and not violations:
        jobs = []
        for n in failing:
            picks = []
            if not byname[n].conc:
                # its sibling harnesses run the same code
                for o in byname.values():
                    if o.conc:
                        jobs.append((("search", o.name, f"of {n}"), conc_job, (o, f"{seed}-{n}-{o.name}", 100000, 12, thorough), 200))
                continue
            for f in symres[n]["fails"]:
                if f["choices"] not in picks:
                    picks.append(f["choices"])
            for j, c in enumerate(picks[:3]):
                jobs.append((("search", n, j), conc_job, (byname[n], f"{seed}-s{j}-{n}", 100000, 12, thorough, c), 200))
            for j in range(2):
                jobs.append((("search", n, f"r{j}"), conc_job, (byname[n], f"{seed}-r{j}-{n}", 100000, 12, thorough), 200))
        for (k, n, j), (st, r) in pool.run(jobs).items():
            if st == "ok" and r["fails"]:
                f = r["fails"][0]
                violations.append((n, f["name"], f["inputs"], f["detail"]))
                hit.add(n)
    # what the verifier could not follow: more concrete runs, with longer
    # sequences, of the harness (or of its siblings, which run the same code)
    stuck = [h for h in hs if h.sym and "--conc" not in flags and "--sym" not in flags and
             (h.name not in symres or symres[h.name]["unsupported"] or symres[h.name]["budget"] or symres[h.name]["errors"])]
    if stuck and not violations:
        more = [h for h in stuck if h.conc]
        if len(more) < len(stuck):
            more += [h for h in hs if h.conc and h not in more]
        k = max(1, 8 // len(more))
        jobs = [(("deep", h.name, j), conc_job, (h, f"{seed}-d{j}-{h.name}", 100000, 10 if len(more) <= 8 else 5, thorough, None, True, True), 200)
                for h in more for j in range(k)]
        for (_, n, j), (st, r) in pool.run(jobs).items():
            if st == "ok" and r["fails"]:
                f = r["fails"][0]
                violations.append((n, f["name"], f["inputs"], f["detail"]))
    noinput = []
    for n in failing:
        if n in hit:
            continue
        sat = [f for f in symres[n]["fails"] if f["status"] == "sat"]
        if sat:
            noinput.append((n, sat[0]))
        else:
            undecided += [f"{n}: {f['name']}: solver gave no answer" for f in symres[n]["fails"]]

    # coverage
    tot = dis = 0
    backends, funcs, harn, reached = {}, set(), [], {}
    bounded_notes, solver_time, paths = [], 0.0, 0
    proved_h = 0
    for h in hs:
        r = symres.get(h.name)
        c = concres.get(h.name)
        e = {"harness": h.name, "functions": h.functions, "bound": h.bound}
        if r:
            t = sum(o["total"] for o in r["obs"].values())
            d = sum(o["discharged"] for o in r["obs"].values())
            closed = not (r["unsupported"] or r["budget"] or r["errors"] or r["fails"]) and t > 0
            e.update({"paths": r["paths"], "obligations": t, "discharged": d,
                      "status": ("proved within the stated bound" if (h.bound or r["bounded"]) else "proved") if closed else "bounded stand-in (concrete runs)",
                      "by_name": {k: v["discharged"] for k, v in r["obs"].items()}, "solver_s": r["solver_time"]})
            if r["bounded"]:
                e["loop_bounds"] = r["bounded"]
            if closed:
                proved_h += 1
            for k in r["unsupported"]:
                undecided.append(f"{h.name}: outside the verifier's reach: {k}")
            if r["budget"]:
                undecided.append(f"{h.name}: {r['budget']}")
            for x in r["errors"]:
                undecided.append(f"{h.name}: symbolic harness error: {x}")
            if t == 0 and not r["unsupported"] and not r["errors"] and not r["budget"] and not r["fails"]:
                undecided.append(f"{h.name}: no obligation was generated")
            tot += t
            dis += d
            for k, v in r["backend"].items():
                backends[k] = backends.get(k, 0) + v
            funcs |= set(r["funcs"])
            solver_time += r["solver_time"]
            paths += r["paths"]
        elif h.sym and "--conc" not in flags:
            undecided.append(f"{h.name}: verifier run did not finish")
        if c:
            e.update({"concrete_runs": c["runs"], "concrete_discarded": c["discarded"]})
        harn.append(e)
    evals = sum(c["runs"] for c in concres.values())
    distinct = sum(len(c["distinct"]) for c in concres.values())
    samples = [s for c in concres.values() for s in c["samples"][:1]][:8]

    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "replays")
    lines = []
    if violations or noinput:
        os.makedirs(rdir, exist_ok=True)
        if violations:
            n, ob, inp, text = violations[0]
            body = {"property": prop, "harness": n, "obligation": ob, "inputs": inp, "detail": text,
                    "all": [{"harness": v[0], "obligation": v[1]} for v in violations],
                    "replay_cmd": f"cd /verif && python3 replay.py <this file>"}
            tail = ""
        else:
            n, f = noinput[0]
            body = {"property": prop, "harness": n, "obligation": f["name"], "inputs": None,
                    "verifier": {k: str(v) for k, v in f.items()},
                    "all": [{"harness": a, "obligation": b["name"]} for a, b in noinput]}
            tail = " no-failing-input-found"
        path = os.path.join(rdir, f"{prop}.json")
        json.dump(body, open(path, "w"), indent=1, default=str)
        lines.append(f"VIOLATION property={prop} replay={path}{tail}")
        print(f"failed obligation: {body['harness']} / {body['obligation']}")
        if violations and violations[0][3]:
            print(violations[0][3][-1500:])
    level = getattr(spec, "LEVEL", "proof")
    cov = {"obligations": tot, "discharged": dis,
           "checker_cmd": f"python3 /verif/check.py {prop}" + (" --thorough" if thorough else ""),
           "trusted_base": TRUSTED + getattr(spec, "TRUSTED", []),
           "back_ends": backends, "solver_s": round(solver_time, 2), "paths": paths,
           "functions_under_contract": sorted(funcs),
           "harnesses": harn,
           "undecided": undecided, "tool_errors": tool,
           "evaluations": evals, "distinct_nontrivial": distinct,
           "rule": "concrete runs of the same contracts on the real code with random and special input values (ties, bounds, NaN, infinities); a run counts when it was not discarded, checked at least one obligation and its inputs differ from all others",
           "samples": samples,
           "explanation": getattr(spec, "EXPLANATION", "contracts on the functions of /repo, discharged path by path; harnesses marked bounded are exhaustive only up to the stated bound")}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - T0, 2),
          "assumptions": ASSUMPTIONS + getattr(spec, "ASSUMPTIONS", []), "violations": len(violations) + len(noinput)}
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1, default=str)

    # known findings: reported only when the listed deviation is really there
    for tag, text in known_findings(prop):
        probe = getattr(spec, "KNOWN", {}).get(tag)
        if probe is None:
            continue
        r = pool.run([("probe", probe_job, (probe,), 120)])["probe"]
        if r == ("ok", True):
            print(f"KNOWN-FINDING: property={prop} {text}")
    print(f"{prop} {tier}: {dis}/{tot} obligations discharged in {paths} paths of {len(symres)} harnesses "
          f"({', '.join(f'{k} {v}' for k, v in sorted(backends.items()))}); {proved_h} harnesses proved; "
          f"{evals} concrete runs ({distinct} distinct); {time.time() - T0:.1f} s")
    for u in undecided[:10]:
        print("undecided:", u[-600:])
    for t in tool[:5]:
        print("tool:", t[-1500:])
    if verbose:
        for e in harn:
            print(json.dumps(e))
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(1 if lines else 0)


def probe_job(probe):
    from dv import concvc
    concvc.setup()
    concvc.fresh_modules()
    return bool(probe())


TRUSTED = [
    "dv/: the path explorer and the verification-condition generator of this framework",
    "dv/npshim.py, dv/arr.py: the stated semantics of the numpy functions the code calls (cross-checked against numpy by tools/shimcheck.py, part of the setup command)",
    "dv/shims.py: stand-ins for the file system, logging, tqdm and matplotlib objects",
    "z3 4.x and cvc5 1.1.2", "CPython's own semantics of the statements executed"]
ASSUMPTIONS = [
    "floating point numbers are extended reals (NaN, infinities, no rounding, no overflow)",
    "integers are unbounded",
    "the extraction drops docstrings; ==, in, dictionary displays and builtins are routed through helpers"]

if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        # a crash of the checker itself: no statement about the code
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
