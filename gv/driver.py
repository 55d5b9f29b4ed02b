#!/usr/bin/env python3
"""Decides one property: runs its Kani harnesses over /repo's current source, replays every
counterexample natively, writes evidence/<id>.json.

  driver.py C07            (VERIF_TIER=quick|thorough, VERIF_SEED)
  driver.py --list [C07]   prints the selection
  driver.py --only SUBSTR C07   restricts the run (development)

exit 0: held on everything decided; 1: VIOLATION (reproduced natively); 2: no answer.
"""
import glob, json, os, re, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KANI = os.path.join(ROOT, "kani")
WORK = os.environ.get("GV_WORK") or os.path.join(ROOT, ".work")
OUT = os.path.join(ROOT, "evidence")
JOBS = os.cpu_count() or 4

LANES = {
    "std": dict(features="std", rustflags=""),
    "nostd": dict(features="", rustflags=""),
    "nightly": dict(features="std,nightly", rustflags="--cfg generic_vec_modern_nightly"),
}


def base(st):
    """storage name without its size (heap capacities are cases of their own)"""
    return st if st.startswith("heap") else st.rstrip("0123456789")


def derived(st):
    b = base(st)
    if b in ("zs", "zslice", "zty", "zheap"):
        return "C16"
    if b in ("boxed", "refmut", "dynbuf"):
        return "C25"


QUICK_DEFAULT = ["h", "slice", "pslice", "heap2", "zs"]
QUICK = {
    "C01": ["h", "slice", "zs"],
    "C04": ["h", "slice", "ty"],
    "C05": ["h", "heap0", "heap1", "heap2"],
    "C16": ["h", "zs", "zty"],
    "C25": ["h", "boxed", "refmut", "dynbuf"],
}


class H:
    """One harness as written: an op! over storages, or a harness!."""

    def __init__(self, file, name, ann, unwind, storages, text):
        self.file, self.name, self.unwind, self.storages, self.text = file, name, unwind, storages, text
        parts = [p.strip() for p in ann.split("|")]
        self.props = parts[0].split()
        self.panic, self.lanes, self.slow, self.quick_extra, self.all = False, None, set(), set(), False
        for f in parts[1:]:
            w = f.split()
            if w[0] == "panic":
                self.panic = True
            elif w[0] == "lanes":
                self.lanes = w[1:]
            elif w[0] == "slow":  # thorough only (all storages, or the named ones)
                self.slow = set(w[1:]) or set(storages)
            elif w[0] == "all":  # every lane on the quick tier, too
                self.all = True
            elif w[0] == "quick":
                self.quick_extra = set(w[1:])
            else:
                raise SystemExit(f"bad annotation {ann!r}")


def load():
    hs = []
    for p in sorted(glob.glob(os.path.join(KANI, "src", "*.rs"))):
        s = open(p).read()
        m = re.search(r"^// gv-lanes: (.*)$", s, re.M)
        lanes = m.group(1).split() if m else ["std"]
        f = os.path.basename(p)[:-3]
        if f in ("rt", "lib"):
            continue
        for m in re.finditer(
            r"^(?:op|own)!\s*\{\s*(\w+),\s*\"([^\"]*)\",\s*unwind (\d+),\s*\[([^\]]*)\] alloc \[([^\]]*)\]", s, re.M
        ):
            h = H(f, m[1], m[2], int(m[3]), m[4].split() + m[5].split(), "")
            h.alloc = set(m[5].split())
            h.lanes = h.lanes or lanes
            hs.append(h)
        for m in re.finditer(r"^harness!\s*\{\s*(\w+),\s*\"([^\"]*)\",\s*unwind (\d+),", s, re.M):
            h = H(f, m[1], m[2], int(m[3]), ["h"], "")
            h.alloc = set()
            h.lanes = h.lanes or lanes
            hs.append(h)
    return hs


def select(hs, prop, tier):
    """[(lane, profile, harness, storage)]"""
    out = []
    for h in hs:
        for st in h.storages:
            mine = prop in h.props or derived(st) == prop
            if not mine:
                continue
            quick = QUICK.get(prop, QUICK_DEFAULT)
            if tier == "quick":
                if st in h.slow or (base(st) not in quick and st not in h.quick_extra):
                    continue
            lanes = list(h.lanes)
            if tier == "quick":
                lanes = lanes[:1]
                if h.all or prop in ("C05", "C23") or (prop == "C25" and h.props[0] == "C25"):
                    lanes = list(h.lanes)
            for lane in lanes:
                if lane == "nostd" and st in h.alloc:
                    continue
                profs = ["rel"] if h.panic else ["dbg"]
                if tier == "thorough":
                    profs = ["dbg", "rel"]
                for prof in profs:
                    out.append((lane, prof, h, st))
    return out


def env(lane, prof, native=False):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTC_WRAPPER", None)
    e["CARGO_TERM_COLOR"] = "never"
    rf = LANES[lane]["rustflags"]
    if prof == "rel" and not native:
        rf += " -C debug-assertions=off"
    e.pop("RUSTFLAGS", None)
    if rf.strip() and not native:
        e["RUSTFLAGS"] = rf.strip()
    if native:
        e["RUSTFLAGS"] = rf
    return e


CHECK = re.compile(r"^Check \d+: (.*)$")


def parse_result(path):
    """Kani's per-harness result file -> dict"""
    r = dict(checks=0, ok=0, unreachable=0, fails=[], covers={}, undetermined=0, time=0.0, verdict=None, fns=set())
    cur = {}

    def done():
        if "name" not in cur:
            return
        name, st, desc, loc = cur["name"], cur.get("st"), cur.get("desc", ""), cur.get("loc", "")
        cls = name.rsplit(".", 2)[-2] if name.count(".") >= 2 else "?"
        if cls == "cover":
            # (the cases of a harness share their witnesses)
            if r["covers"].get(desc) != "SATISFIED":
                r["covers"][desc] = st
            return
        r["checks"] += 1
        m = re.search(r"repo/(src/\S+?):\d+.* in function (.*)$", loc)
        if m and st != "UNREACHABLE":
            r["fns"].add(m.group(2).strip())
        if st == "SUCCESS":
            r["ok"] += 1
        elif st == "UNREACHABLE":
            r["unreachable"] += 1
        elif st == "FAILURE":
            r["fails"].append((cls, desc, loc))
        else:
            r["undetermined"] += 1

    for line in open(path, errors="replace"):
        line = line.rstrip("\n")
        m = CHECK.match(line)
        if m:
            done()
            cur = {"name": m[1]}
            continue
        t = line.strip()
        if t.startswith("- Status: "):
            cur["st"] = t[10:].strip()
        elif t.startswith("- Description: "):
            cur["desc"] = t[15:].strip().strip('"')
        elif t.startswith("- Location: "):
            cur["loc"] = t[12:]
        elif t.startswith("VERIFICATION:- "):
            done()
            cur = {}
            r["verdict"] = t[15:].split()[0]
        elif t.startswith("Verification Time: "):
            r["time"] = float(re.sub("[^0-9.]", "", t[19:]) or 0)
    done()
    return r


def hpath(h, st):
    return f"{h.file}::{h.name}::{st}"


def run_kani(lane, prof, jobs, timeout, deadline, unwind=None, tag=""):
    """jobs: [(h, st)] -> {(h.name.., st): result | None}, error text"""
    td = os.path.join(WORK, f"k-{lane}-{prof}{tag}")
    rd = os.path.join(td, "result_output_dir")
    shutil.rmtree(rd, ignore_errors=True)
    os.makedirs(td, exist_ok=True)
    cmd = ["cargo", "kani", "--lib", "--target-dir", td, "-j", str(JOBS), "--output-format", "terse",
           "--output-into-files", "-Z", "unstable-options", "--no-assertion-reach-checks", "--harness-timeout", f"{timeout}s", "--exact"]
    if LANES[lane]["features"]:
        cmd += ["--features", LANES[lane]["features"]]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    for h, st in jobs:
        cmd += ["--harness", hpath(h, st)]
    log = os.path.join(WORK, f"kani-{lane}-{prof}{tag}.log")
    with open(log, "wb") as lf:
        try:
            subprocess.run(cmd, cwd=KANI, env=env(lane, prof), stdout=lf, stderr=subprocess.STDOUT,
                           timeout=max(10, deadline - time.time()))
        except subprocess.TimeoutExpired:
            subprocess.run(["pkill", "-f", f"cbmc.*{td}"])
    res = {}
    for h, st in jobs:
        p = os.path.join(rd, hpath(h, st))
        r = parse_result(p) if os.path.exists(p) else None
        if r is not None and r["verdict"] is None:
            r = None
        res[(h, st)] = r
    text = open(log, "rb").read().decode(errors="replace")
    err = None
    if all(r is None for r in res.values()):
        m = re.search(r"^error.*", text, re.M)
        err = text[m.start():][:3000] if m else text[-2000:]
    return res, err


def acceptable_panic(f):
    cls, desc, loc = f
    if "gvh" in loc.split(" in function ")[0] or re.search(r"(^|/)kani/src/|^src/", loc):
        return False
    if desc.startswith("GV-") or "unsafe precondition" in desc:
        return False
    return cls in ("assertion",)


def judge(h, r):
    """-> (kind, detail): ok | fail | unwind | undecided"""
    if r is None:
        return "undecided", "no answer within the time limit"
    fails = r["fails"]
    bad = [f for f in fails if not (h.panic and acceptable_panic(f))]
    uw = [f for f in bad if f[0] == "unwind"]
    if uw:
        return "unwind", uw[0][2]
    unsup = [f for f in bad if "not currently supported" in f[1] or f[0] == "unsupported_construct"]
    if unsup:
        return "undecided", "unsupported: " + unsup[0][1]
    if bad:
        return "fail", bad
    if r["undetermined"]:
        return "undecided", "undetermined checks"
    if h.panic and not [f for f in fails if acceptable_panic(f)]:
        return "undecided", "no refusal reached"
    if not h.panic and r["verdict"] != "SUCCESSFUL":
        return "undecided", "verdict " + str(r["verdict"])
    return "ok", ""


# ------------------------------------------------------------------------------------ replay

def playback(lane, prof, h, st, deadline, unwind=None):
    td = os.path.join(WORK, f"k-{lane}-{prof}")
    cmd = ["cargo", "kani", "--lib", "--target-dir", td, "--exact", "--harness", hpath(h, st), "-Z", "concrete-playback",
           "--concrete-playback=print"]
    if LANES[lane]["features"]:
        cmd += ["--features", LANES[lane]["features"]]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    try:
        p = subprocess.run(cmd, cwd=KANI, env=env(lane, prof), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=max(10, deadline - time.time()))
    except subprocess.TimeoutExpired:
        return []
    text = p.stdout.decode(errors="replace")
    models = []
    for m in re.finditer(r"/// Check for `([^`]*)`: \"(.*?)\"\s*$.*?let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];",
                         text, re.M | re.S):
        vals = [[int(x) for x in v.split(",") if x.strip()] for v in re.findall(r"vec!\[([^\]]*)\]", m[3])]
        if m[1] == "cover":
            continue
        models.append((m[1], m[2], vals))
    return models


_built = {}


def build_native(lane, how, names, deadline):
    """how: asan | release -> path of the replay binary, or None"""
    key = (lane, how)
    if key in _built and _built[key][1] >= set(names):
        return _built[key][0]
    table = os.path.join(WORK, f"table-{lane}-{how}.rs")
    with open(table, "w") as f:
        f.write("fn table(name: &str) -> Option<fn()> { match name {\n")
        for n in names:
            f.write(f'    "{n}" => Some(gvh::{n}),\n')
        f.write("    _ => None } }\n")
    e = env(lane, "dbg", native=True)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["GVH_TABLE"] = table
    td = os.path.join(WORK, f"n-{lane}-{how}")
    e["RUSTFLAGS"] += " --cfg gvh_table"
    cmd = ["cargo", "build", "--offline", "--bin", "replay", "--target-dir", td]
    if how == "asan":
        e["RUSTFLAGS"] += " -Zsanitizer=address"
        cmd += ["--target", "x86_64-unknown-linux-gnu"]
    else:
        cmd += ["--release"]
    if LANES[lane]["features"]:
        cmd += ["--features", LANES[lane]["features"]]
    p = subprocess.run(cmd, cwd=KANI, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    b = os.path.join(td, "x86_64-unknown-linux-gnu/debug/replay" if how == "asan" else "release/replay")
    if p.returncode != 0 or not os.path.exists(b):
        print(p.stdout.decode(errors="replace")[-2000:], file=sys.stderr)
        b = None
    _built[key] = (b, set(names))
    return b


def miri_cmd(lane, names):
    table = os.path.join(WORK, f"table-{lane}-miri.rs")
    with open(table, "w") as f:
        f.write("fn table(name: &str) -> Option<fn()> { match name {\n")
        for n in names:
            f.write(f'    "{n}" => Some(gvh::{n}),\n')
        f.write("    _ => None } }\n")
    e = env(lane, "dbg", native=True)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["GVH_TABLE"] = table
    e["RUSTFLAGS"] += " --cfg gvh_table"
    e["MIRIFLAGS"] = "-Zmiri-disable-stacked-borrows -Zmiri-disable-isolation -Zmiri-ignore-leaks"
    cmd = ["cargo", "miri", "run", "--offline", "--bin", "replay", "--target-dir", os.path.join(WORK, f"n-{lane}-miri")]
    if LANES[lane]["features"]:
        cmd += ["--features", LANES[lane]["features"]]
    return cmd, e


def replay(lane, h, st, models, deadline):
    """-> (model index, how, output) of a run that shows the failure, or None; and a log"""
    name = hpath(h, st)
    log = []
    files = []
    for k, (cls, desc, vals) in enumerate(models):
        f = os.path.join(WORK, f"in-{name.replace('::', '.')}-{k}.txt")
        with open(f, "w") as o:
            for v in vals:
                o.write("".join("%02x" % x for x in v) + "\n")
        files.append(f)
    for how in ("asan", "release", "miri"):
        if how == "miri":
            if time.time() > deadline - 60:
                break
            cmd, e = miri_cmd(lane, [name])
            cmd = cmd + ["--"]
        else:
            b = build_native(lane, how, [name], deadline)
            if not b:
                log.append(f"{how}: build failed")
                continue
            cmd, e = [b], dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1"
        e["RUST_BACKTRACE"] = "0"
        for k, f in enumerate(files):
            try:
                p = subprocess.run(cmd + [name, f], cwd=KANI, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=120 if how == "miri" else 30)
            except subprocess.TimeoutExpired:
                log.append(f"{how} model {k}: time limit")
                continue
            t = p.stdout.decode(errors="replace")
            if p.returncode == 0 and "GV-REPLAY-PASSED" in t:
                log.append(f"{how} model {k}: passed")
                continue
            if p.returncode == 77:
                log.append(f"{how} model {k}: assumption not met")
                continue
            if how == "miri" and not re.search(r"Undefined Behavior|panicked", t):
                log.append(f"miri model {k}: exit {p.returncode} {t[-300:]}")
                continue
            return (k, how, t[-1500:]), log
    return None, log


def save_replay(prop, lane, prof, h, st, models, rep):
    k, how, text = rep
    cls, desc, vals = models[k]
    os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
    p = os.path.join(OUT, "replay", f"{prop}-{h.file}-{h.name}-{st}-{lane}.json")
    json.dump(dict(property=prop, engine="kani", harness=hpath(h, st), lane=lane, profile=prof, check=desc,
                   inputs=["".join("%02x" % x for x in v) for v in vals], replayed_with=how, output=text,
                   how_to=f"python3 {ROOT}/gv/driver.py --replay {p}"), open(p, "w"), indent=1)
    return p


def do_replay(path):
    d = json.load(open(path))
    hs = load()
    f, n, st = d["harness"].split("::")
    h = [h for h in hs if h.file == f and h.name == n][0]
    os.makedirs(WORK, exist_ok=True)
    vals = [[int(x[i:i + 2], 16) for i in range(0, len(x), 2)] for x in d["inputs"]]
    rep, log = replay(d["lane"], h, st, [("", d["check"], vals)], time.time() + 600)
    print("\n".join(log))
    if rep:
        print(rep[2])
        print("REPRODUCED with", rep[1])
        return 1
    print("not reproduced")
    return 0


# ------------------------------------------------------------------------------------- check

def known(prop):
    p = os.path.join(ROOT, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) (.*)", line)
            if m and m[1] == prop:
                out.append((m[2], m[3].strip()))
    return out


def run_property(prop, tier, only=None, budget=None):
    t0 = time.time()
    deadline = t0 + (budget or (780 if tier == "quick" else 4 * 3600))
    per = 240 if tier == "quick" else 1500
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    sel = select(load(), prop, tier)
    if only:
        sel = [s for s in sel if any(o in hpath(s[2], s[3]) for o in only)]
    groups = {}
    for lane, prof, h, st in sel:
        groups.setdefault((lane, prof), []).append((h, st))
    results, notes, errors = {}, [], []
    for (lane, prof), jobs in groups.items():
        res, err = run_kani(lane, prof, jobs, per, deadline)
        if err:
            errors.append(f"{lane}-{prof}: {err}")
        # a rewritten loop may need more unwinding
        for factor in (2, 4):
            again = [(h, st) for (h, st), r in res.items() if judge(h, r)[0] == "unwind"]
            if not again or time.time() > deadline - 30:
                break
            for u in sorted({h.unwind for h, st in again}):
                r2, _ = run_kani(lane, prof, [(h, st) for h, st in again if h.unwind == u], per, deadline,
                                 unwind=u * factor, tag="-u")
                for k, r in r2.items():
                    if r is not None:
                        r["unwind"] = u * factor
                        res[k] = r
        for k, r in res.items():
            results[(lane, prof) + k] = r
    if errors:
        print("ERROR: no result from the model checker:\n" + "\n".join(errors))
        return 2, None
    violations, undecided, decided, tolerated = [], [], [], []
    for (lane, prof, h, st), r in results.items():
        kind, detail = judge(h, r)
        name = hpath(h, st) + f" [{lane},{prof}]"
        if kind == "ok":
            decided.append(name)
        elif kind == "fail":
            if len(violations) >= 3 or (violations and time.time() > deadline - 200):
                notes.append(f"not replayed: {name}: {detail[0][1]}")
                continue
            models = playback(lane, prof, h, st, deadline, r.get("unwind"))[:8]
            rep, log = replay(lane, h, st, models, deadline) if models else (None, ["no model"])
            if rep:
                violations.append((lane, prof, h, st, models[rep[0]][1], save_replay(prop, lane, prof, h, st, models, rep)))
            elif h.panic and all(f[0] == "arithmetic_overflow" or "overflow" in f[1] for f in detail
                                 if not acceptable_panic(f)):
                # refused by an overflow panic; the release build was replayed and refuses too
                tolerated.append(name)
                decided.append(name)
            else:
                undecided.append((name, f"counterexample not reproduced natively: {detail[0]} {log}"))
        else:
            undecided.append((name, f"{kind}: {detail}"))
    # reachability witnesses: every run reaches its end (or its refusal), and on vectors of at least
    # three slots the harness's own witness
    own, sat, reach = {}, set(), 0
    for (lane, prof, h, st), r in results.items():
        if r is None or judge(h, r)[0] != "ok":
            continue
        general = {d: s for d, s in r["covers"].items() if d in ("end reached", "refusal reached")}
        if st not in ("heap0", "heap1") and general and "SATISFIED" not in general.values():
            undecided.append((hpath(h, st), "witness not reachable: the harness would be vacuous"))
        reach += sum(s == "SATISFIED" for s in r["covers"].values())
        for d, s in r["covers"].items():
            if d in general:
                continue
            key = (h.file, h.name, d)
            if s == "SATISFIED":
                sat.add(key)
            if not st.endswith(("0", "1", "2")):
                own.setdefault(key, set()).add(st)
    for k in sorted(set(own) - sat):
        undecided.append(("::".join(k), "witness not reachable: the harness would be vacuous"))
    fns = sorted(set().union(*[r["fns"] for r in results.values() if r] or [set()]))
    n_checks = sum(r["checks"] - r["unreachable"] for r in results.values() if r)
    solver_s = sum(r["time"] for r in results.values() if r)
    info = dict(
        harness_runs=len(results), decided=len(decided), assertions_decided=n_checks,
        assertions_unreachable=sum(r["unreachable"] for r in results.values() if r),
        solver_seconds=round(solver_s, 2), witnesses_reached=reach, functions_encoded=len(fns),
        functions=fns, harnesses=sorted(decided), undecided=[f"{a}: {b}" for a, b in undecided],
        overflow_refusals=tolerated, notes=notes,
        unwind_raised={hpath(h, st): r["unwind"] for (l, p, h, st), r in results.items() if r and "unwind" in r},
    )
    return (violations, undecided, info, t0), None


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(do_replay(a[1]))
    if a and a[0] == "--list":
        tier = os.environ.get("VERIF_TIER", "quick")
        for p in a[1:] or ["C%02d" % i for i in range(1, 28)]:
            s = select(load(), p, tier)
            print(p, len(s))
            if a[1:]:
                for lane, prof, h, st in s:
                    print("  ", lane, prof, hpath(h, st))
        return
    only = []
    while "--only" in a:
        i = a.index("--only")
        only.append(a[i + 1])
        del a[i:i + 2]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from check import check  # noqa
    sys.exit(check(prop, tier, only))


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    main()
