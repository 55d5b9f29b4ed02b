"""Combines the engines for one property, prints the verdict and writes the evidence file."""
import json, os, sys, time
import driver
from meta import META


def check(prop, tier, only=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    violations, undecided, cover = [], [], {}
    if META.get(prop, {}).get("kani", True):
        r, _ = driver.run_property(prop, tier, only)
        if r == 2:
            return 2
        v, u, info, _ = r
        known = driver.known(prop)
        for lane, prof, h, st, desc, path in v:
            name = driver.hpath(h, st)
            k = [x for x in known if x[0] == name and x[1].split(" -- ")[0] == desc]
            if k:
                print(f"KNOWN-FINDING: property={prop} {name} {desc}")
            else:
                violations.append((name, desc, path))
        undecided += u
        cover["kani"] = info
    if META.get(prop, {}).get("llsym"):
        import llsym_check
        r = llsym_check.run_property(prop, tier, only)
        if r == 2:
            return 2
        v, u, info = r
        violations += v
        undecided += u
        cover["llsym"] = info
    decided = sum(c.get("decided", 0) for c in cover.values())
    runs = sum(c.get("harness_runs", 0) for c in cover.values())
    m = META.get(prop, {})
    cov = dict(
        explanation=("Bounded symbolic execution of the implementation's own code (regenerated from /repo on this run); a "
                     "solver decided every assertion of every listed harness for all inputs within the stated bounds. "
                     + m.get("what", "")),
        bounds=m.get("bounds", ""), outside=m.get("outside", ""),
        evaluations=runs, distinct_nontrivial=decided,
        rule="one evaluation is one harness (operation x storage x build lane x profile) handed to the solver; non-trivial "
             "means decided, with its reachability witness reached",
        samples=(cover.get("kani", {}).get("harnesses", []) + cover.get("llsym", {}).get("harnesses", []))[:5],
        engines=cover,
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="other", coverage=cov,
              assumptions=m.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(driver.OUT, exist_ok=True)
    with open(os.path.join(driver.OUT, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for name, desc, path in violations:
        print(f"  {name}: {desc}")
        print(f"VIOLATION property={prop} replay={path}")
    for a, b in undecided:
        print(f"UNDECIDED {a}: {str(b)[:600]}")
    print(f"{prop} {tier}: {decided}/{runs} harness runs decided, {len(violations)} violations, "
          f"{len(undecided)} undecided, {time.time() - t0:.0f} s")
    if violations:
        return 1
    if undecided and (len(undecided) * 4 > runs or any(
            "vacuous" in str(b) or "not reproduced" in str(b) for a, b in undecided)):
        return 2
    if not decided:
        return 2
    return 0
