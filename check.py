#!/usr/bin/env python3-vt
"""check.py PROPERTY: decides one property on the current tree of /repo (see DESIGN.md).

  1. every lemma of specs/<property>.py that is meant to be proved is turned into obligations by symbolic execution of
     the source in /repo/src and discharged by the SMT solver (pyvc);
  2. every lemma is evaluated on generated inputs under CPython: the bounded stand-in where the prover has no answer,
     a cross-check of the prover where it has one, and the search for a failing input where an obligation fails.
"""
import argparse
import json
import multiprocessing as mp
import os
import resource
import sys
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import concrete  # noqa: E402

CPUS = max(1, min(8, os.cpu_count() or 1))
TIERS = {"quick": dict(concrete=20.0, proof=60.0, cases=4000), "thorough": dict(concrete=300.0, proof=600.0, cases=10 ** 7)}


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def find(prop, name):
    for f in concrete.load(prop):
        if f.__name__ == name:
            return f
    raise KeyError(name)


def job_concrete(prop, name, seed, budget, cases, start, step):
    import gens
    f = find(prop, name)
    st = concrete.search(f, seed, budget, cases, gens.harvest(concrete.REPO_SRC), start, step)
    return dict(kind="concrete", lemma=name, **st)


def job_proof(prop, name, budget):
    from pyvc import prover
    r = prover.prove(prop, name, budget)
    return dict(kind="proof", prop=prop, lemma=name, **r)


def work(job):
    t0 = time.time()
    try:
        if job[0] == "concrete":
            r = job_concrete(*job[1:])
        else:
            r = job_proof(*job[1:])
    except MemoryError:
        r = dict(kind=job[0], lemma=job[2], error="out of memory")
    except Exception as e:
        import traceback
        r = dict(kind=job[0], lemma=job[2], error="%s: %s" % (type(e).__name__, e), trace=traceback.format_exc())
    r["wall"] = time.time() - t0
    return r


# contracts of virtual methods (specs/k00.py) that are part of what a property says
OWNS = {"C06": ["attribute_clone", "map_clone"]}


def init():
    limits()
    concrete.setup()


def jobs_for(prop, tier, seed):
    T = TIERS[tier]
    lemmas = concrete.load(prop)
    proofs = [("proof", prop, f.__name__, T["proof"] * (5 if f._lemma["heavy"] else 1)) for f in lemmas
              if f._lemma["mode"] in ("both", "proof", "shape", "induction")]
    proofs.sort(key=lambda j: -j[3])
    runs = [f for f in lemmas if f._lemma["mode"] in ("both", "bounded", "induction")]
    proofs += [("proof", "K00", n, T["proof"]) for n in OWNS.get(prop, ())]
    weight = sum(f._lemma["weight"] for f in runs) or 1
    out = []
    for f in runs:
        w = f._lemma["weight"]
        cpu = T["concrete"] * CPUS * w / weight
        chunks = max(1, min(CPUS, int(round(CPUS * w / weight)) or 1))
        for c in range(chunks):
            out.append(("concrete", prop, f.__name__, seed, cpu / chunks, max(50, T["cases"] * w // chunks), c, chunks))
    return lemmas, proofs, out


def write_replay(prop, data):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, data["lemma"]))
    with open(path, "w") as f:
        json.dump(data, f, indent=1, default=str)
    return path


def replay(path):
    """Runs the recorded input against the current tree: exit 1 if it still fails."""
    concrete.setup()
    with open(path) as fh:
        d = json.load(fh)
    if d.get("kind") == "obligation":
        from pyvc import prover
        r = prover.prove(d.get("specs", d["property"]), d["lemma"], 120)
        bad = [o for o in r["obligations"] if o["status"] == "failed"]
        print(json.dumps(bad, indent=1))
        return 1 if bad else 0
    import gens
    f = find(d.get("specs", d["property"]), d["lemma"])
    if "model" in d:
        from pyvc import decode
        args = decode.unpack(d["model"])
        st, label, text = concrete.run_case(f, None, None, args=args)
    else:
        st, label, text = concrete.run_case(f, d["seed"], gens.harvest(concrete.REPO_SRC), d.get("size", 1.0))
    print(d["property"], d["lemma"], st, label)
    for t in text or ():
        print("  ", t)
    return 1 if st in ("violated", "broken") else 0


def proved_before():
    p = os.path.join(VERIF, "proved.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--replay")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    prop = a.prop
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in TIERS else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    concrete.setup()
    lemmas, proofs, runs = jobs_for(prop, tier, seed)
    shapes = {f.__name__ for f in lemmas if f._lemma["mode"] == "shape"}
    if a.no_proof:
        proofs = []
    if a.only:
        proofs = [j for j in proofs if j[2] == a.only]
        runs = [j for j in runs if j[2] == a.only]
    results, bad, broken = [], None, []
    ctx = mp.get_context("fork")
    pool = ctx.Pool(CPUS, initializer=init, maxtasksperchild=8)
    deadline = t0 + (780 if tier == "quick" else 6000)
    try:
        it = pool.imap_unordered(work, proofs + runs, chunksize=1)
        for _ in range(len(proofs) + len(runs)):
            try:
                r = it.next(timeout=max(1, deadline - time.time()))
            except mp.TimeoutError:
                broken.append("timed out")
                break
            results.append(r)
            if "error" in r:
                if r["kind"] == "concrete":
                    broken.append("%s: %s" % (r["lemma"], r["error"]))
                    sys.stderr.write(r.get("trace", "") + "\n")
                continue
            if r["kind"] == "concrete" and r.get("bad"):
                if r["bad"]["status"] == "broken":
                    broken.append("%s: %s" % (r["lemma"], r["bad"]["label"]))
                else:
                    bad = dict(kind="input", property=prop, lemma=r["lemma"], **r["bad"])
                    break
            if r["kind"] == "proof" and r.get("witness") and r["lemma"] not in shapes:
                bad = dict(kind="input", property=prop, specs=r["prop"], lemma=r["lemma"], **r["witness"])
                break
        if bad is None and not broken:
            discharge_contracts(pool, results, TIERS[tier]["proof"], tier == "thorough")
    finally:
        pool.terminate()
    return report(prop, tier, seed, lemmas, proofs, results, bad, broken, t0)


def discharge_contracts(pool, results, budget, all_):
    """The contracts that stood for method bodies are proved on the bodies; a lemma counts as proved only with them."""
    def name(r):
        return r["lemma"] if r["prop"] == "K00" else r["prop"] + "." + r["lemma"]

    def job(c):
        if "." not in c:
            return "proof", "K00", c, budget
        p, n = c.split(".")
        return "proof", p, n, budget * 5
    done = {name(r): r for r in results if r["kind"] == "proof" and "status" in r}
    while True:
        todo = sorted({c for r in results if r["kind"] == "proof" for c in r.get("contracts", ())} - set(done))
        if not all_:
            # lemmas of another property: discharged by the check of that property on the same tree
            for r in results:
                other = [c for c in r.get("contracts", ()) if "." in c and c in todo]
                if other:
                    r["assumptions"] = list(r.get("assumptions", ())) + \
                        ["the contract %s holds (discharged by the check of %s; the thorough tier proves it again here)" % (c, c.split(".")[0])
                         for c in other]
            todo = [c for c in todo if "." not in c]
        if not todo:
            break
        for r in pool.imap_unordered(work, [job(c) for c in todo], chunksize=1):
            r["contract"] = True
            results.append(r)
            done[name(r)] = r
    bad = {n for n, r in done.items() if r.get("status") != "proved"}
    for _ in done:
        bad |= {n for n, r in done.items() if bad & set(r.get("contracts", ()))}
    for r in results:
        miss = bad & set(r.get("contracts", ())) if r["kind"] == "proof" else ()
        if miss and r.get("status") == "proved":
            r["status"], r["why"] = "not proved", "rests on a contract that is not proved: " + ", ".join(sorted(miss))


def report(prop, tier, seed, lemmas, proofs, results, bad, broken, t0):
    before = proved_before().get(prop, {})
    conc = [r for r in results if r["kind"] == "concrete" and "cases" in r]
    prf = {r["lemma"]: r for r in results if r["kind"] == "proof"}
    failed = None
    shapes = {f.__name__ for f in lemmas if f._lemma["mode"] in ("shape", "induction")}
    for name, r in prf.items():
        if name in shapes:
            continue
        for o in r.get("obligations", ()):
            if o["status"] == "failed" and not o.get("lossy") and before.get(name) == "proved" and not r.get("contract"):
                failed = failed or dict(kind="obligation", property=prop, specs=r["prop"], lemma=name, obligation=o["label"],
                                        where=o.get("where"), verifier_output=o)
    obs = [o for r in prf.values() for o in r.get("obligations", ())]
    cov = {}
    cov["evaluations"] = sum(r["cases"] for r in conc)
    cov["distinct_nontrivial"] = sum(r["distinct"] for r in conc)
    cov["rule"] = ("inputs are generated from the lemma's parameter types (literals of the source, corner values, repeated and nearly "
                   "equal values); a case is non-trivial when it satisfies every requires and evaluates at least one ensures, and "
                   "distinct by the text of its arguments")
    cov["samples"] = [dict(lemma=r["lemma"], arguments=s) for r in conc for s in r.get("samples", ())[:1]][:6]
    # a lemma whose verification was given up generates at least the one obligation that is not discharged
    lost = [n for n, r in prf.items() if r.get("status") != "proved" and all(o["status"] == "discharged" for o in r.get("obligations", ()))]
    cov["obligations"] = len(obs) + len(lost)
    cov["not_discharged"] = sorted({"%s: %s" % (n, o["label"]) for n, r in prf.items() for o in r.get("obligations", ())
                                    if o["status"] != "discharged"} | {n + ": not completed" for n in lost})
    cov["discharged"] = sum(o["status"] == "discharged" for o in obs)
    cov["checker_cmd"] = "python3-vt check.py " + prop
    cov["trusted_base"] = sorted({t for r in prf.values() for t in r.get("trusted", ())}
                                 | {"pyvc (semantics of the Python subset, /verif/pyvc)", "z3", "CPython (bounded evaluation)"})
    cov["lemmas"] = {f.__name__: dict(
        mode=f._lemma["mode"],
        proof=(prf[f.__name__].get("status", prf[f.__name__].get("error", "?")) if f.__name__ in prf else "none"),
        why=prf.get(f.__name__, {}).get("why"),
        obligations=len(prf.get(f.__name__, {}).get("obligations", ())),
        paths=prf.get(f.__name__, {}).get("paths", 0),
        solver_s=round(prf.get(f.__name__, {}).get("solver_s", 0.0), 2),
        functions=len(prf.get(f.__name__, {}).get("functions", ())),
        evaluated=sum(r["ok"] for r in conc if r["lemma"] == f.__name__),
        skipped=sum(r["skip"] for r in conc if r["lemma"] == f.__name__)) for f in lemmas}
    cov["contracts"] = {n: dict(status=r.get("status"), obligations=len(r.get("obligations", ())), functions=r.get("functions", ()),
                                used_by=sorted(x["lemma"] for x in prf.values() if n in x.get("contracts", ())))
                        for n, r in prf.items() if r.get("prop") == "K00"}
    cov["functions_under_contract"] = sorted({x for r in prf.values() if r.get("status") == "proved" for x in r.get("functions", ())})
    cov["solver_s"] = round(sum(r.get("solver_s", 0.0) for r in prf.values()), 2)
    cov["back_end"] = "z3 " + _z3()
    man = level_of(prop)
    if man == "proof" and (not obs or cov["discharged"] < cov["obligations"]):
        man = "exploration"     # what this run showed
    ev = dict(property=prop, tier=tier, seed=seed, level=man, coverage=cov,
              assumptions=assumptions(prf), wall_s=round(time.time() - t0, 2), violations=1 if (bad or failed) else 0)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d lemmas; proof: %d/%d obligations discharged, %d/%d lemmas proved; bounded: %d cases, %d distinct; %.1f s" % (
        prop, tier, len(lemmas), cov["discharged"], cov["obligations"], sum(r.get("status") == "proved" for r in prf.values()),
        len(prf), cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    for n, r in prf.items():
        if r.get("status") != "proved":
            print("  not proved: %s (%s)" % (n, r.get("why") or r.get("error")))
    if bad:
        path = write_replay(prop, bad)
        print("  %s: %s" % (bad["lemma"], bad["label"]))
        for t in (bad.get("args") or ())[:6]:
            print("    " + str(t)[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if broken:
        for b in broken:
            print("ERROR " + b)
        return 2
    if failed:
        path = write_replay(prop, failed)
        print("  failed obligation of %s: %s" % (failed["lemma"], failed["obligation"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    for f in lemmas:
        if f._lemma["mode"] not in ("proof", "shape") and not any(r["lemma"] == f.__name__ and r["ok"] for r in conc) and any(r["lemma"] == f.__name__ for r in conc):
            print("ERROR %s: no case evaluated an ensures" % f.__name__)
            return 2
    if not conc and not obs:
        print("ERROR nothing was checked")
        return 2
    return 0


def _z3():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


def level_of(prop):
    try:
        with open(os.path.join(VERIF, "MANIFEST.json")) as f:
            for c in json.load(f)["checks"]:
                if c["property"] == prop:
                    return c["level"]
    except Exception:
        pass
    return "exploration"


def assumptions(prf):
    out = {"lemmas in mode 'bounded', and lemmas whose proof is not 'proved', are decided on generated inputs only (a bounded check, not a proof)"}
    for r in prf.values():
        out |= set(r.get("assumptions", ()))
    return sorted(out)


if __name__ == "__main__":
    sys.exit(main())
