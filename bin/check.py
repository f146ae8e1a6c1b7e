#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--case FAMILY:IDX]  -- decides one property on /repo's working tree."""
import argparse, json, os, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS


def known():
    out = []
    p = os.path.join(B.ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                head, _, what = line[7:].rstrip("\n").partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split(" ", 2))
                out.append((d["property"], d["family"], d["key"], what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    a = ap.parse_args()
    pid = a.property
    C = CHECKS[pid]
    t0 = time.time()
    try:
        exes = B.build([x[:2] for x in C["runs"]])
    except B.BuildError as e:
        print(f"ERROR: cannot build the check of {pid}: {e}")
        return 2
    tb = time.time() - t0
    if a.case:
        fam, idx = a.case.rsplit(":", 1)
        for h, v, args in C["runs"]:
            cmd = [exes[h, v], "--family", fam, "--case", idx] + args + (["--thorough"] if a.tier == "thorough" else [])
            r = subprocess.run(cmd)
            if r.returncode != 2:
                return r.returncode
        return 2
    evdir = os.path.join(B.ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    res, errors, viol = [], [], []
    for h, v, args in C["runs"]:
        out = os.path.join(B.BUILD, f"out-{pid}-{h}-{v}.json")
        if os.path.exists(out):
            os.unlink(out)
        cmd = [exes[h, v], "--out", out, "--workers", str(C.get("workers", os.cpu_count() or 8))] + args
        if a.tier == "thorough":
            cmd.append("--thorough")
        env = dict(os.environ, OMP_NUM_THREADS="1")
        if v == "asan":
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=0:quarantine_size_mb=8"
            env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=1"
        r = subprocess.run(cmd, env=env)
        try:
            j = json.load(open(out))
        except (OSError, ValueError):
            errors.append(f"{h} ({v}) ended with {r.returncode} and no result")
            continue
        j["harness"], j["variant"] = h, v
        res.append(j)
        errors += j["errors"]
        for x in j["violations"]:
            viol.append((h, v, x))
    kf = known()
    new, seen_known = [], []
    for h, v, x in viol:
        hit = [k for k in kf if k[0] == pid and k[1] == x["family"] and k[2] == x["key"]]
        if hit:
            seen_known.append(hit[0])
        else:
            new.append((h, v, x))
    for k in dict.fromkeys(seen_known):
        print(f"KNOWN-FINDING: property={pid} {k[3]} [{k[1]}: {k[2]}]")
    rdir = os.path.join(evdir, "replay")
    for i, (h, v, x) in enumerate(new):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f"{pid}-{i}.txt")
        with open(rp, "w") as f:
            f.write(f"property: {pid}\ncase: {x['family']}:{x['idx']}\n{x['key']}\n\n{x['msg']}\n\n"
                    f"replay: cd {B.ROOT} && python3 bin/check.py {pid} --tier {a.tier} --case {x['family']}:{x['idx']}\n")
        print(f"  {x['family']}:{x['idx']} {x['key']}\n    {x['msg'][:1500]}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(rp, B.ROOT)}")
    fams = [dict(f, harness=j["harness"], variant=j["variant"]) for j in res for f in j["families"]]
    tot = lambda k: sum(j[k] for j in res)
    cov = {
        "states": tot("states"),
        "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("traces"),
        "evaluations": tot("cases"),
        "distinct_nontrivial": max(tot("outcomes"), 0),
        "nontrivial_executions": tot("nontrivial"),
        "skipped": tot("skipped"),
        "rule": C["rule"],
        "exhaustive_within_bounds": all(f["exhaustive"] for f in fams) and not errors,
        "families": fams,
        "samples": [s for j in res for s in j["samples"]][:40],
        "build_s": round(tb, 1),
    }
    cov.update(C.get("coverage", {}))
    ev = {"property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": C["level"],
          "coverage": cov, "violations": [x for _, _, x in new], "known_findings": [list(k) for k in dict.fromkeys(seen_known)],
          "errors": errors, "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(evdir, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {a.tier}: {cov['evaluations']} executions, {cov['states']} states, {cov['transitions']} transitions, "
          f"{cov['traces_validated_against_impl']} traces, {len(new)} violations, {len(errors)} errors, {ev['wall_s']} s")
    if new:
        return 1
    if errors:
        print("ERROR: " + "; ".join(errors)[:2000])
        return 2
    if cov["nontrivial_executions"] == 0 or cov["evaluations"] == 0:
        print("ERROR: the exploration was vacuous")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
