#!/usr/bin/env python3
"""check.py ID: decide one property (see props.py) against /repo's current tree by symbolic execution + SMT.
exit 0: held on everything explored; 1: VIOLATION (every reported model was replayed natively); 2: no verdict."""
import json, os, random, re, resource, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS, KNOWN_FILE
V, B = build.V, build.B

def replay(exe, h, model, timeout=60):
    d = tempfile.mkdtemp(prefix="hv-replay-")
    try:
        lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        try:
            p = subprocess.run([exe, h], env={"HV_REPLAY": model, "PATH": "/usr/bin:/bin", "HOME": d, "RUST_BACKTRACE": "0"}, cwd=d, capture_output=True,
                               timeout=timeout, preexec_fn=lim)
            out, rc = p.stdout.decode("utf-8", "replace"), p.returncode
            err = p.stderr.decode("utf-8", "replace")
        except subprocess.TimeoutExpired as e:
            out, rc, err = (e.stdout or b"").decode("utf-8", "replace"), "timeout", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r = {"rc": rc, "obs": [], "covers": set(), "fails": [], "panic": None, "end": False, "assume": False, "err": err[-400:]}
    for l in out.splitlines():
        if l.startswith("OBS "):
            k, _, v = l[4:].rpartition(" "); r["obs"].append([k, v])
        elif l.startswith("COVER "): r["covers"].add(l[6:])
        elif l.startswith("ASSERT-FAIL "): r["fails"].append(l[12:])
        elif l.startswith("PANIC"): r["panic"] = l[6:]
        elif l == "END": r["end"] = True
        elif l == "ASSUME-FAIL": r["assume"] = True
    return r

def known():
    out = []
    if os.path.exists(KNOWN_FILE):
        for l in open(KNOWN_FILE):
            m = re.match(r"known: property=(\S+) harness=(\S+) label=(.*?) :: (.*)$", l.strip())
            if m: out.append(m.groups())
    return out

def is_known(pid, h, lab):
    """The known finding that lists this violation; a label ending in * is a prefix (of a panic's call stack)."""
    for k in known():
        if k[0] == pid and k[1] == h and (k[2] == lab or (k[2].endswith("*") and lab.startswith(k[2][:-1]))): return k

def main():
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1"))
    if "--thorough" in sys.argv: tier = "thorough"
    cfg = PROPS[pid]; t0 = time.time(); rnd = random.Random(seed)
    hs = cfg["quick"] if tier == "quick" else cfg["quick"] + cfg.get("thorough", [])
    jobs = min(8, os.cpu_count() or 1)
    work = tempfile.mkdtemp(prefix="hv-check-")
    problems, confirmed, knownhits, samples, per, fns = [], [], {}, [], [], {}
    tot = dict(paths=0, forks=0, asserts=0, assert_queries=0, z3_queries=0, z3_sat=0, z3_unsat=0, fast_sat=0, fast_unsat=0, z3_seconds=0.0, insts=0)
    validated = 0; replays = 0
    built = {}
    try:
        for h in hs:
            crate = h.get("crate", "core")
            if crate not in built:
                built[crate] = build.build(crate)
                if not built[crate]:
                    print("NO-VERDICT property=%s harness crate %s does not build" % (pid, crate)); return 2
            exe, mods = built[crate]
            out, ff = work + "/r.jsonl", work + "/f.txt"
            for f in (out, ff):
                if os.path.exists(f): os.unlink(f)
            limit = h.get("time", 240 if tier == "quick" else 2400)
            cmd = [B + "/engine", "--mods", mods, "--out", out, "--fns", ff, "--entry", h["h"], "--jobs", str(jobs), "--time", str(limit)]
            p = subprocess.run(cmd, capture_output=True, text=True)
            try: st = json.loads(p.stdout.strip().splitlines()[-1])
            except Exception:
                problems.append("%s: engine failed: %s %s" % (h["h"], p.stdout[-300:], p.stderr[-600:])); continue
            recs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
            for k in tot: tot[k] += st.get(k, 0)
            if os.path.exists(ff):
                for l in open(ff):
                    l = l.rstrip("\n")
                    if l: fns[l] = 1
            ok = [r for r in recs if r["status"] == "ok"]
            bad = [r for r in recs if r["status"] in ("violation", "panic", "fault")]
            err = [r for r in recs if r["status"] in ("error", "timeout")]
            # 1. violations: replay each distinct one natively
            byl = {}
            for r in bad:
                lab = r["msg"] if r["status"] == "violation" else "%s: %s" % (r["status"], r["msg"])
                byl.setdefault(lab, []).append(r)
            for lab, rs in byl.items():
                hit = None
                for r in rs[:6]:
                    n = replay(exe, h["h"], r["model"]); replays += 1
                    if r["status"] == "violation": good = r["msg"] in n["fails"]
                    else: good = n["panic"] is not None or (n["rc"] not in (0, "timeout") and not n["end"]) or n["rc"] == "timeout"
                    if good: hit = (r, n); break
                if not hit:
                    problems.append("%s: engine reports %r (model %s) but it does not reproduce natively" % (h["h"], lab, rs[0]["model"])); continue
                validated += 1
                kn = is_known(pid, h["h"], lab)
                if kn: knownhits[(h["h"], kn[2])] = kn[3]
                else: confirmed.append((h["h"], lab, hit[0], hit[1], crate))
            # 2. completeness
            if err: problems.append("%s: %d paths without a verdict, e.g. %s: %s at %s" % (h["h"], len(err), err[0]["status"], err[0]["msg"][:300], str(err[0].get("bt"))[:300]))
            if st.get("crashed"): problems.append("%s: %d engine processes died" % (h["h"], st["crashed"]))
            # 3. encoding validation: path models replayed natively must give the same transcript
            pick = ok if len(ok) <= 40 else rnd.sample(ok, 40)
            for r in pick:
                n = replay(exe, h["h"], r["model"]); replays += 1
                if n["fails"] or n["panic"] is not None:
                    lab = n["fails"][0] if n["fails"] else "panic: " + n["panic"]
                    if not is_known(pid, h["h"], lab): confirmed.append((h["h"], lab, r, n, crate))
                    continue
                if not n["end"] or n["assume"] or n["obs"] != r["obs"] or n["covers"] != set(r["covers"]):
                    problems.append("%s: native transcript differs from the symbolic path for model %s (rc %s)" % (h["h"], r["model"], n["rc"]))
                else: validated += 1
            # 4. vacuity witnesses
            cov = {}
            for r in ok:
                for c in r["covers"]: cov[c] = cov.get(c, 0) + 1
            for c in h.get("covers", ["end"]):
                if not cov.get(c) and not bad: problems.append("%s: witness %r never reached" % (h["h"], c))
            for r in pick[:3]: samples.append({"harness": h["h"], "model_hex": r["model"], "covers": r["covers"], "observed": r["obs"][:6], "instructions": r["insts"]})
            for lab in byl: samples.append({"harness": h["h"], "violation": lab, "model_hex": byl[lab][0]["model"]})
            per.append({"harness": h["h"], "bounds": h.get("bounds", ""), "paths_ok": len(ok), "paths_infeasible_by_assumption": sum(r["status"] == "assume" for r in recs),
                        "violations": len(bad), "no_verdict": len(err), "witnesses": cov, "engine": st})
    finally:
        shutil.rmtree(work, ignore_errors=True)
    hudi = sorted(f for f in fns if "hudi" in f)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "violations": len(confirmed), "wall_s": round(time.time() - t0, 2),
          "assumptions": cfg["assumptions"] + COMMON,
          "coverage": {"states": tot["paths"] + tot["forks"], "transitions": 2 * tot["forks"] + tot["fast_unsat"] + tot["z3_unsat"], "traces_validated_against_impl": validated, "samples": samples[:12],
                       "states_meaning": "nodes of the symbolic execution tree: completed symbolic paths plus fork points", "transitions_meaning": "branch directions decided by the solver (taken at forks, plus directions refuted)",
                       "native_replays": replays, "queries": {"smt": tot["z3_queries"], "sat": tot["z3_sat"], "unsat": tot["z3_unsat"], "assertion_queries": tot["assert_queries"], "assertions_checked": tot["asserts"], "decided_by_byte_domains": tot["fast_sat"] + tot["fast_unsat"], "solver_seconds": round(tot["z3_seconds"], 2)},
                       "instructions": tot["insts"], "functions_encoded": len(fns), "hudi_functions_encoded": hudi[:400], "bounds": {h["h"]: h.get("bounds", "") for h in hs}, "harnesses": per, "no_verdict": problems, "known_findings": ["%s: %s" % k for k in knownhits]}}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(V + "/evidence/%s.json" % pid, "w"), indent=1)
    for (h, lab), txt in knownhits.items(): print("KNOWN-FINDING: property=%s %s [%s: %s]" % (pid, txt, h, lab))
    for x in problems: print("NO-VERDICT property=%s %s" % (pid, x))
    if confirmed:
        os.makedirs(V + "/evidence/replay", exist_ok=True); seen = set()
        for i, (h, lab, r, n, crate) in enumerate(confirmed):
            if (h, lab) in seen: continue
            seen.add((h, lab)); f = V + "/evidence/replay/%s-%d.json" % (pid, len(seen))
            json.dump({"property": pid, "harness": h, "crate": crate, "label": lab, "model_hex": r["model"], "symbolic_backtrace": r.get("bt"), "native": {"fails": n["fails"], "panic": n["panic"], "rc": n["rc"], "stderr": n["err"]},
                       "how": "HV_REPLAY=%s %s %s" % (r["model"], built[crate][0], h)}, open(f, "w"), indent=1)
            print("  %s: %s" % (h, lab)); print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1
    if problems: return 2
    print("OK property=%s tier=%s paths=%d queries=%d wall=%.1fs" % (pid, tier, tot["paths"], tot["z3_queries"], time.time() - t0))
    return 0

COMMON = ["code is the release build's LLVM IR of /repo (toolchain 1.84, loop/SLP vectorisation off, no overflow checks), regenerated from the current tree on this run",
          "object store is an in-memory stand-in injected through the cfg(hudi_verif) hook: immediate futures, no concurrency",
          "hash values of std/ahash maps are fixed, so iteration order of hash maps is one fixed order; oracles are order-insensitive"]
if __name__ == "__main__": sys.exit(main())
