"""Runs all contracts of one property, decides the verdict, writes the evidence file."""
import ast
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def mined_ints(files=None):
    """integer constants of the code (and their neighbours) make good sizes; files: also the larger ones in these files"""
    out = set()
    import warnings
    warnings.simplefilter("ignore")
    for root, _, files in os.walk(os.path.join(REPO, "padasip")):
        for f in files:
            if f.endswith(".py"):
                try:
                    t = ast.parse(open(os.path.join(root, f)).read())
                except Exception:
                    continue
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool) and n.value >= 3:
                        v = n.value
                        if v <= 130:
                            out |= {v - 1, v, v + 1}
                        if files and v <= 3000 and any(os.path.join(root, f).endswith(g) for g in files):
                            out |= {v - 1, v, v + 1, 2 * v + 3}
    return sorted(out)


def work(c, tier, seed, conn):
    import warnings
    warnings.simplefilter("ignore")
    from . import contract as K, native, logic as L, terms as T
    from . import induct
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    t0 = time.time()
    sys.setrecursionlimit(20000)
    try:
        r = K.verify(c)
    except MemoryError:
        r = K.Rec(name=c.name, unsupported="memory", proved=0, refuted=[], unknown=[], how={}, functions=[], assumed=[], paths=0)
    r["native"] = {"runs": 0, "skipped": 0, "fails": [], "sample": None}
    conn.send(dict(r))          # keep the symbolic result even if the replay is cut short
    fully = not r["refuted"] and not r["unknown"] and not r["unsupported"]
    if c.native:
        nat = native.Native(REPO, VERIF)
        ints = mined_ints(None if fully else c.covers)
        n = c.samples if fully else 12 * c.samples
        if tier == "thorough":
            n *= 6
        budget = (20 if fully else 90) * (4 if tier == "thorough" else 1)
        t1 = time.time()
        N = r["native"]
        seen = set()

        def one(env):
            for nm in list(env.ufs):
                if nm.startswith("R"):
                    del env.ufs[nm]
            out, desc = K.native_check(c, env, nat)
            N["runs"] += 1
            if out is not None and out[0] == "skip":
                N["skipped"] += 1
                N["lastskip"] = out[1]
            elif desc is not None:
                d = json.dumps(desc, default=str)[:3000]
                seen.add(d)
                if N["sample"] is None and len(d) < 1500:
                    N["sample"] = desc
            if out is not None and out[0] == "fail":
                N["fails"].append({"goal": out[1], "detail": out[2], "inputs": desc, "values": {k: v for k, v in env.vals.items() if "#" not in k and "." not in k and not k.startswith("@")}})
                return True
            return False
        def labels():
            return {f["goal"] for f in N["fails"]}
        # counterexamples of the verifier first
        for lab, info, text in r["refuted"]:
            if isinstance(info, dict):
                for t in range(4):
                    env = K.native_env(c, seed, "cx%d" % t, preset=info.get("values"))
                    if env is not None:
                        one(env)
                    if time.time() - t1 > budget:
                        break
            if len(N["fails"]) >= 8 or time.time() - t1 > budget / 2:
                break
        t = 0
        while t < n and time.time() - t1 < budget and len(N["fails"]) < 30:
            env = K.native_env(c, seed, t, ints if (not fully or t % 3 == 2) else (), wide=not fully)
            t += 1
            if env is None:
                N["skipped"] += 1
                continue
            try:
                one(env)
            except (T.TermError, RecursionError):
                N["skipped"] += 1
        N["distinct"] = len(seen)
        nat.stop()
    r["wall"] = time.time() - t0
    r["stats"] = dict(L.STATS)
    r["stats"].update({"coupled": induct.STATS["coupled"], "induct": induct.STATS["induct"]})
    conn.send(dict(r))
    conn.close()


LIMIT = {"quick": 700, "thorough": 3000}       # seconds for the verifier; bounded stand-ins afterwards


def run_contracts(cs, tier, seed, jobs=8, deadline=None):
    results = {}
    ctx = mp.get_context("fork")
    queue = list(cs)
    live = []
    while queue or live:
        while queue and len(live) < jobs:
            c = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(c, tier, seed, b))
            p.start()
            b.close()
            live.append((c, p, a, time.time()))
        time.sleep(0.02)
        for item in list(live):
            c, p, a, t0 = item
            lim = c.timeout * (3 if tier == "thorough" else 1)
            try:
                while a.poll():
                    results[c.name] = a.recv()
            except EOFError:
                pass
            if not p.is_alive():
                try:
                    while a.poll():
                        results[c.name] = a.recv()
                except EOFError:
                    pass
                p.join()
                live.remove(item)
                a.close()
            elif time.time() - t0 > lim or (deadline and time.time() > deadline):
                _killtree(p)
                live.remove(item)
                a.close()
                if c.name not in results:
                    results[c.name] = dict(name=c.name, unsupported="time limit (%ds)" % lim, timeout=True)
            if item not in live and c.name not in results:
                results[c.name] = dict(name=c.name, unsupported="worker ended with code %s" % p.exitcode)
    for c in cs:
        r = results[c.name]
        for k, v in (("proved", 0), ("refuted", []), ("unknown", []), ("how", {}), ("functions", []), ("assumed", []), ("paths", 0)):
            r.setdefault(k, v)
        r.setdefault("native", {"runs": 0, "skipped": 0, "fails": []})
    return results


def _killtree(p):
    try:
        import signal
        kids = []
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open("/proc/%s/stat" % d) as f:
                        s = f.read().rsplit(")", 1)[1].split()
                    if int(s[1]) == p.pid:
                        kids.append(int(d))
                except Exception:
                    pass
        p.kill()
        p.join()
        for k in kids:
            try:
                os.kill(k, signal.SIGKILL)
            except OSError:
                pass
    except Exception:
        pass


def _only_native(c):
    """bounded stand-in when the verifier ran out of time: native sampling only"""
    from . import contract as K
    return K.Rec(name=c.name, unsupported="time limit", timeout=True, proved=0, refuted=[], unknown=[], how={}, functions=[], assumed=[], paths=0)


def known_for(prop):
    try:
        k = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except FileNotFoundError:
        return []
    return [x for x in k["findings"] if x["property"] == prop]


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("contracts.%s" % prop.lower())
    cs = mod.contracts(tier) if mod.contracts.__code__.co_argcount else mod.contracts()
    from . import native
    native.preload(REPO)
    only = os.environ.get("VERIF_ONLY")
    if only:
        cs = [c for c in cs if re.search(only, c.name)]
    names = [c.name for c in cs]
    assert len(set(names)) == len(names), "duplicate contract names"
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    res = run_contracts(cs, tier, seed, jobs, t0 + LIMIT[tier])
    late = [c for c in cs if res[c.name].get("timeout")]
    if late:
        from . import contract as K
        v = K.verify
        K.verify = _only_native
        for c in late:
            c.timeout = 120
        res.update(run_contracts(late, tier, seed, jobs, t0 + LIMIT[tier] + 100))
        K.verify = v
    lem = []
    if hasattr(mod, "lemmas"):
        lem = mod.lemmas(tier)
    return verdict(prop, mod, cs, res, lem, tier, seed, t0)


def verdict(prop, mod, cs, res, lem, tier, seed, t0):
    known = known_for(prop)
    viol = []           # (contract, goal, kind, data)
    kf = {}
    undecided, unsupported = [], []
    total = disch = 0
    for c in cs:
        r = res[c.name]
        total += r["proved"] + len(r["refuted"]) + len(r["unknown"])
        disch += r["proved"]
        pats = [x for x in known if x["contract"] == c.name]

        def is_known(goal):
            for x in pats:
                if re.search(x["goal"], goal):
                    return x
            return None
        failing = []
        for f in r["native"]["fails"]:
            x = is_known(f["goal"])
            if x:
                kf[x["id"]] = x
            else:
                failing.append(f)
        bad = []
        for lab, info, text in r["refuted"]:
            x = is_known(lab.split("/", 2)[-1])
            if x:
                kf[x["id"]] = x
            else:
                bad.append((lab, info, text))
        if r["unsupported"]:
            total += 1
            unsupported.append((c.name, r["unsupported"]))
        for u in r["unknown"]:
            if not is_known(u[0].split("/", 2)[-1]):
                undecided.append(u)
        if failing:
            viol.append((c, failing[0]["goal"], "input", {"failing": failing[:3], "refuted": bad[:5], "unsupported": r["unsupported"]}))
        elif bad:
            # the counterexample was replayed: inputs with the verifier's values behaved as specified
            viol.append((c, bad[0][0], "noinput", {"refuted": bad[:5]}))
        elif c.name not in getattr(mod, "UNPROVED", {}):
            # not discharged and no failing input found, for a contract that is proved on the committed tree
            open_ = [u for u in r["unknown"] if not is_known(u[0].split("/", 2)[-1])]
            if open_:
                viol.append((c, open_[0][0], "noinput", {"undischarged": open_[:5]}))
            elif r["unsupported"] and not r.get("timeout") and r["unsupported"] != "memory" and not r["unsupported"].startswith("worker"):
                viol.append((c, c.name + "/verification", "noinput", {"outside_the_verifier": r["unsupported"]}))
    for l in lem:
        total += 1
        if l["ok"]:
            disch += 1
        else:
            viol.append((None, l["name"], "lemma", l))
    for x in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, x["what"]))
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "."):
            os.unlink(os.path.join(rdir, f))
    code = 0
    for j, (c, goal, kind, data) in enumerate(sorted(viol, key=lambda v: 0 if v[2] == "input" else 1)[:20]):
        path = os.path.join(rdir, "%s.%d.json" % (prop, j))
        rec = {"property": prop, "failed_obligation": goal, "contract": c.name if c else None, "kind": kind,
               "verifier_output": data, "harness": c.src if c else None, "harness_function": c.fn if c else None,
               "covers": list(c.covers) if c else None}
        with open(path, "w") as f:
            json.dump(rec, f, indent=1, default=str)
        what = ("failing input: %s" % str(data["failing"][0]["detail"])[:160]) if kind == "input" else ("refuted obligation" if data.get("refuted") else "undischarged obligation")
        print("  %s: %s [%s]" % (c.name if c else "lemma", goal, what))
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if kind == "input" else " no-failing-input-found"))
        code = 1
    nonvac = [c.name for c in cs if not res[c.name]["unsupported"] and res[c.name]["proved"] == 0]
    ev = evidence(prop, mod, cs, res, lem, tier, seed, t0, total, disch, undecided, unsupported, len(viol), kf, nonvac)
    out = os.path.join(VERIF, "evidence", prop + ".json")
    s = json.dumps(ev, indent=1, default=str)
    if len(s) > 60000:
        ev["coverage"]["contracts"] = [{k: x[k] for k in ("name", "obligations", "discharged")} for x in ev["coverage"]["contracts"]]
        s = json.dumps(ev, default=str)
    with open(out, "w") as f:
        f.write(s)
    print("%s: %d/%d obligations discharged, %d contracts, %d undecided, %d outside the verifier (bounded), %.1fs" % (
        prop, disch, total, len(cs), len(undecided), len(unsupported), time.time() - t0))
    for n, u in unsupported:
        print("  bounded stand-in for %s: %s (%d native runs)" % (n, u, res[n]["native"]["runs"]))
    for u in undecided[:10]:
        print("  undecided (bounded stand-in): %s" % u[0])
    if os.environ.get("PYVC_V"):
        for c in cs:
            r = res[c.name]
            print("   ", c.name, "proved", r["proved"], "ref", [x[0] for x in r["refuted"]], "unk", [x[0] for x in r["unknown"]], r["unsupported"], "%.1fs" % r.get("wall", -1), "nat %d/%d" % (r["native"]["runs"], r["native"]["skipped"]), r["native"].get("lastskip"), "paths", r["paths"], "canary", r.get("canary"))
            if os.environ["PYVC_V"] > "1":
                for x in (r["refuted"] + r["unknown"])[:3]:
                    print("        ", x[0], str(x[1])[:300], "\n          ", x[2][:1200])
                for x in r["native"]["fails"][:2]:
                    print("      native:", x["goal"], str(x["detail"])[:300], str(x["values"])[:300])
    return code


def evidence(prop, mod, cs, res, lem, tier, seed, t0, total, disch, undecided, unsupported, nviol, kf, nonvac):
    how = {}
    fns, assumed = set(), set()
    stats = {"z3": 0, "lin": 0, "z3_time": 0.0}
    runs = dist = 0
    samples = []
    items = []
    for c in cs:
        r = res[c.name]
        for k, v in r["how"].items():
            how[k] = how.get(k, 0) + v
        fns |= set(r["functions"])
        assumed |= set(r["assumed"])
        st = r.get("stats") or {}
        for k, v in st.items():
            if isinstance(v, (int, float)):
                stats[k] = round(stats.get(k, 0) + v, 3)
        runs += r["native"]["runs"]
        dist += r["native"].get("distinct", 0)
        if r["native"].get("sample") and len(samples) < 3:
            samples.append({"contract": c.name, "inputs": r["native"]["sample"]})
        it = {"name": c.name, "obligations": r["proved"] + len(r["refuted"]) + len(r["unknown"]), "discharged": r["proved"],
              "paths": r["paths"], "bounded_only": bool(r["unsupported"])}
        if r["unsupported"]:
            it["outside_verifier"] = r["unsupported"][:160]
        it["seconds"] = round(r.get("wall", 0), 2)
        if r.get("canary"):
            it["false_canary_rejected"] = True
        items.append(it)
    for l in lem:
        how[l["backend"]] = how.get(l["backend"], 0) + 1
    level = getattr(mod, "LEVEL", "proof")
    return {"property": prop, "tier": tier, "seed": seed, "level": level,
            "coverage": {
                "obligations": total, "discharged": disch,
                "checker_cmd": "python3-vt run_check.py %s" % prop,
                "trusted_base": TRUSTED + list(getattr(mod, "TRUSTED", [])) + ["assumed library contract: " + a for a in sorted(assumed)],
                "discharged_by": how, "solver": stats,
                "functions_under_contract": sorted(fns),
                "contracts": items,
                "lemmas": [{"name": l["name"], "backend": l["backend"], "ok": l["ok"]} for l in lem],
                "undecided": [u[0] for u in undecided][:40], "bounded_standins": [{"contract": n, "why": u[:200]} for n, u in unsupported][:40],
                "contracts_without_discharged_obligation": nonvac,
                "evaluations": runs, "distinct_nontrivial": dist,
                "rule": "native replay of each contract's harness on the real code with random inputs satisfying its precondition; counted once per distinct input, skipped runs (undefined specification value) not counted",
                "samples": samples,
                "known_findings": sorted(kf)},
            "assumptions": ASSUME + list(getattr(mod, "ASSUME", [])),
            "wall_s": round(time.time() - t0, 2), "violations": nviol}


TRUSTED = ["pyvc symbolic interpreter for Python (parses /repo sources on every run; nothing is dropped: constructs outside its subset are reported as not verified)",
           "pyvc term normal form, summation rules, and integer difference/linear reasoning; z3 for the rest",
           "contracts of numpy/scipy operations as written in pyvc/npmod.py (cross-checked against CPython on every run by the native replays)"]
ASSUME = ["floating-point numbers are treated as real numbers, fixed-width integers as integers",
          "array arguments passed as different parameters do not overlap in memory unless a contract says so"]
