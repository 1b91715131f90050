#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of /repo's current code.

usage: check.py PROP [--tier quick|thorough] [--only FN] [--keep]
       check.py --setup
       check.py --build GROUP        (build only, print the paths)
exit 0: held on everything explored; 1: VIOLATION printed; 2: the check could not give an answer.
"""
import sys, os, re, json, time, hashlib, subprocess, fcntl, glob, shutil
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
TARGET = os.path.join(BUILD, "t")
TRIPLE = "x86_64-unknown-linux-gnu"
ENGINE = os.path.join(BUILD, "engine", "vse")
RT = os.path.join(BUILD, "rt.o")
HOOKS = ["root", "fonts", "layout", "pdf", "style", "dom", "html", "lester"]
sys.path.insert(0, HERE)


class Error(Exception):
    pass


def sh(cmd, cwd=None, env=None, timeout=1700):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def vp_env():
    env = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
        for kv in out.split(b"\0"):
            if b"=" in kv:
                k, v = kv.split(b"=", 1)
                env[k.decode()] = v.decode("utf8", "replace")
    return env


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock("engine"):
        rc, out = sh(["make", "-j4", "B=../build/engine"], cwd=os.path.join(HERE, "engine"))
        if rc:
            raise Error("engine build failed:\n" + out[-3000:])
        if not os.path.exists(RT) or os.path.getmtime(RT) < os.path.getmtime(os.path.join(HERE, "rt/rt.c")):
            rc, out = sh(["gcc", "-O1", "-c", os.path.join(HERE, "rt/rt.c"), "-o", RT])
            if rc:
                raise Error("rt build failed:\n" + out)


def tree_hash():
    """Content hash of everything in /repo that the build reads (not times: copies may keep old ones)."""
    h = hashlib.sha256()
    for d in ("victor", "proc-macros", "lester"):
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            dirs[:] = [x for x in dirs if x not in ("target", ".git")]
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def group_src(group):
    return os.path.join(HERE, "h", group)


def harness_names(group):
    names = []
    for f in sorted(glob.glob(os.path.join(group_src(group), "*.rs"))):
        with open(f) as fh:
            names += re.findall(r'extern "C" fn (vh_\w+)', fh.read())
    return names


def build_group(group):
    """Compile /repo's working tree with the group's harnesses; returns (bitcode, native binary)."""
    from props import GROUPS
    g = GROUPS.get(group, {})
    crate = os.path.join(HERE, g.get("crate", "vh"))
    target = TARGET if g.get("crate", "vh") == "vh" else TARGET + "_" + g["crate"]
    binname = os.path.basename(crate)
    hk = os.path.join(BUILD, "hk", group)
    os.makedirs(hk, exist_ok=True)
    src = group_src(group)
    for m in HOOKS:
        p = os.path.join(src, m + ".rs")
        write_if_changed(os.path.join(hk, m + ".rs"), 'include!("%s");\n' % p if os.path.exists(p) else "")
    names = harness_names(group)
    own = [n for n in names]
    main = os.path.join(src, "main.rs")
    text = ""
    if os.path.exists(main):
        with open(main) as f:
            inmain = set(re.findall(r'extern "C" fn (vh_\w+)', f.read()))
        own = [n for n in names if n not in inmain]
        text += 'include!("%s");\n' % main
    text += 'extern "C" {\n' + "".join("    fn %s();\n" % n for n in own) + "}\n"
    text += "static TABLE: &[(&str, unsafe extern \"C\" fn())] = &[%s];\n" % ", ".join('("%s", %s)' % (n, n) for n in names)
    text += "pub use %s as _;\n" % g.get("lib", "victor")
    write_if_changed(os.path.join(hk, "main.rs"), text)
    with Lock("cargo"):
        stamp = os.path.join(target, "tree.hash")
        th = tree_hash()
        try:
            old = open(stamp).read()
        except OSError:
            old = ""
        if old != th:
            for fp in glob.glob(os.path.join(target, "**", ".fingerprint"), recursive=True):
                for d in os.listdir(fp):
                    if re.match(r"(victor|lester|vh|vl)[-_]", d):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
            try:
                os.unlink(stamp)
            except OSError:
                pass
        env = vp_env()
        env["CARGO_TARGET_DIR"] = target
        env["VICTOR_VERIF_DIR"] = hk
        env["CARGO_INCREMENTAL"] = "0"
        env["RUSTFLAGS"] = " ".join([
            "--cfg victor_verif", "-A warnings", "-C no-vectorize-loops", "-C no-vectorize-slp",
            "-C relocation-model=static", "-C link-arg=" + RT, "-C link-arg=-lm", "-C link-arg=-no-pie"])
        for old_bc in glob.glob(os.path.join(target, TRIPLE, "release/deps", binname + "-*.bc")):
            pass
        rc, out = sh(["cargo", "rustc", "--offline", "--release", "--target", TRIPLE, "--bin", binname, "--",
                      "--emit=llvm-bc,link"], cwd=crate, env=env)
        if rc:
            raise Error("the code under test does not build with the harnesses of group %s:\n%s" % (group, out[-4000:]))
        bcs = sorted(glob.glob(os.path.join(target, TRIPLE, "release/deps", binname + "-*.bc")), key=os.path.getmtime)
        if not bcs:
            raise Error("no bitcode produced\n" + out[-2000:])
        with open(stamp, "w") as f:
            f.write(th)
        o = os.path.join(BUILD, "out", "%s.%d" % (group, os.getpid()))
        os.makedirs(o, exist_ok=True)
        bc, nat = os.path.join(o, "vh.bc"), os.path.join(o, "vh")
        shutil.copyfile(bcs[-1], bc)
        shutil.copy(os.path.join(target, TRIPLE, "release", binname), nat)
    return bc, nat


def native(nat, fn, values, params, workdir, tag, timeout=30, valgrind=False):
    vf = os.path.join(workdir, "%s.%s.values" % (fn, tag))
    with open(vf, "w") as f:
        f.write("\n".join(str(v) for v in values) + "\n")
    env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "VH_VALUES": vf, "HOME": "/nonexistent"}
    for k, v in params.items():
        env["VH_PARAM_" + k] = str(v)
    cmd = ["valgrind", "-q", "--error-exitcode=77", nat, fn] if valgrind else [nat, fn]
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=workdir)
        return p.returncode, p.stdout.decode("utf8", "replace"), vf
    except subprocess.TimeoutExpired as e:
        return "timeout", (e.stdout or b"").decode("utf8", "replace"), vf


def confirm(nat, fn, viol, params, workdir, tag):
    """Does the counterexample reproduce on the natively compiled code?"""
    rc, out, vf = native(nat, fn, viol["values"], params, workdir, tag)
    k = viol["kind"]
    if rc == 10 and "VH-VIOLATION" in out:
        return True, out, vf
    if rc == "timeout":
        return True, out + "\n(native run did not end within 30 s)", vf
    if rc in (101, 134) or (isinstance(rc, int) and rc < 0):
        return True, out, vf
    if k in ("memory", "unreachable"):
        rc, out, vf = native(nat, fn, viol["values"], params, workdir, tag, timeout=120, valgrind=True)
        if rc == 77 or (isinstance(rc, int) and rc < 0):
            return True, out, vf
    if k == "limit" and fn:
        return False, "step limit exceeded in the engine, native run ended: rc=%s" % rc, vf
    return False, "native run: rc=%s\n%s" % (rc, out[-1500:]), vf


def merge(js, nsamples):
    """One report from the reports of the engine's worker processes."""
    out = dict(js[0])
    for k in ("paths", "completed", "panic_allowed", "assume_pruned", "forks", "symbolic_branches", "assertions_checked", "unsupported_paths",
              "instructions", "queries", "cache_hits", "sat", "unsat", "unknown"):
        out[k] = sum(j[k] for j in js)
    out["solver_s"] = round(sum(float(j["solver_s"]) for j in js), 3)
    out["max_query_s"] = max(float(j["max_query_s"]) for j in js)
    out["complete"] = all(j["complete"] for j in js)
    out["incomplete_reason"] = "; ".join(sorted({j["incomplete_reason"] for j in js if j["incomplete_reason"]}))[:600]
    out["covers"] = {}
    for j in js:
        for k, v in j["covers"].items():
            out["covers"][k] = out["covers"].get(k, 0) + v
    out["unsupported"] = sorted({u for j in js for u in j["unsupported"]})
    out["functions"] = sorted({u for j in js for u in j["functions"]})
    out["functions_executed"] = max(j["functions_executed"] for j in js)
    vs = {}
    for j in js:
        for v in j["violations"]:
            k = (v["kind"], v["msg"], v["where"])
            if k in vs:
                vs[k]["count"] += v["count"]
            else:
                vs[k] = dict(v)
    out["violations"] = list(vs.values())
    ss = [s for j in js for s in j["samples"]]
    step = max(1, len(ss) // max(nsamples, 1))
    out["samples"] = ss[::step][:nsamples]
    return out


def load_findings():
    """known_findings.jsonl: one JSON object per line; status "known" suppresses exactly its match."""
    res = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:") and not line.startswith("#"):
                res.append(json.loads(line))
    return res


def main():
    args = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    pos = []
    i = 0
    keep = False
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]; i += 1
        elif args[i] == "--only":
            only = args[i + 1]; i += 1
        elif args[i] == "--keep":
            keep = True
        else:
            pos.append(args[i])
        i += 1
    build_engine()
    if pos[0] == "--setup":
        from props import PROPS
        for g in sorted({p["group"] for p in PROPS.values()}):
            bc, nat = build_group(g)
            shutil.rmtree(os.path.dirname(bc))
        return 0
    if pos[0] == "--build":
        print(*build_group(pos[1]))
        return 0
    prop = pos[0]
    from props import PROPS
    P = PROPS[prop]
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    bc, nat = build_group(P["group"])
    tb = time.time() - t0
    work = os.path.join(BUILD, "work", "%s.%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    replay_dir = os.path.join(BUILD, "replay", prop)
    shutil.rmtree(replay_dir, ignore_errors=True)
    os.makedirs(replay_dir, exist_ok=True)
    runs = [dict(r) for r in P["runs"] if (only is None or r["fn"] == only) and not (tier == "quick" and r.get("thorough_only"))]
    budget = P.get("time", 600 if tier == "quick" else 780)

    def one(ix):
        r = runs[ix]
        params = dict(r.get("params", {}))
        params.update(r.get(tier, {}))
        r["p"] = params
        outf = os.path.join(work, "%d.json" % ix)
        cmd = [ENGINE, bc, "--fn", r["fn"], "--out", outf, "--time", str(r.get("time", budget)), "--samples", str(r.get("samples", 6)),
               "--seed", str(seed), "--max-paths", str(r.get("max_paths", 2000000)), "--max-insts", str(r.get("max_insts", 200000000)),
               "--qtimeout", str(r.get("qtimeout", 60000)), "--jobs", str(os.cpu_count() or 4)]
        for k, v in params.items():
            cmd += ["--param", "%s=%s" % (k, v)]
        if "depth" in r:
            cmd += ["--depth", str(r["depth"])]
        t = time.time()
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=r.get("time", budget) + 120)
            r["rc"], r["log"] = p.returncode, p.stdout.decode("utf8", "replace")[-3000:]
        except subprocess.TimeoutExpired:
            r["rc"], r["log"] = -99, "engine timed out"
        r["wall"] = time.time() - t
        r["j"] = None
        if r["rc"] == 0 and os.path.exists(outf):
            r["j"] = merge([json.load(open(f)) for f in sorted(glob.glob(outf) + glob.glob(outf + ".*[0-9]"))], r.get("samples", 6))
        return ix

    with ThreadPoolExecutor(max_workers=int(os.environ.get("VERIF_JOBS", "3"))) as ex:
        list(ex.map(one, range(len(runs))))

    errors, reported, knowns = [], [], []
    findings = load_findings()
    validated, samples_out, mism = 0, [], 0
    for r in runs:
        fn, j = r["fn"], r["j"]
        label = fn + ("" if not r["p"] else " " + ",".join("%s=%s" % kv for kv in sorted(r["p"].items())))
        if j is None:
            errors.append("%s: engine failed (rc %s): %s" % (label, r["rc"], r["log"]))
            continue
        # counterexamples
        unconfirmed = 0
        for n, vi in enumerate(j["violations"]):
            known = None
            for k in findings:
                if k["property"] == prop and k["fn"] == fn and k["kind"] == vi["kind"] and k["msg"] == vi["msg"] and k.get("where", vi["where"]) == vi["where"]:
                    known = k
            tag = "%d.%d" % (runs.index(r), n)
            ok, out, vf = confirm(nat, fn, vi, r["p"], work, tag)
            dest = os.path.join(replay_dir, "%s.%s" % (fn, tag))
            shutil.copyfile(vf, dest + ".values")
            with open(dest + ".json", "w") as f:
                json.dump({"property": prop, "harness": fn, "params": r["p"], "violation": vi, "native": out[-3000:],
                           "replay": "VH_VALUES=%s.values %s %s %s" % (dest, " ".join("VH_PARAM_%s=%s" % kv for kv in r["p"].items()), "<native binary>", fn)}, f, indent=1)
            if not ok:
                unconfirmed += 1
                errors.append("%s: counterexample not reproduced by the native build (%s: %s at %s): %s" % (label, vi["kind"], vi["msg"], vi["where"], out[:600]))
            elif known:
                knowns.append((known, vi, dest))
            else:
                reported.append((label, vi, dest + ".json", out))
        new_viols = [v for v in j["violations"]]
        if not j["complete"] and not new_viols:
            errors.append("%s: exploration incomplete: %s %s" % (label, j["incomplete_reason"], "; ".join(j["unsupported"])[:1500]))
        elif not j["complete"]:
            r["note"] = "incomplete: " + j["incomplete_reason"]
            if not any(x[0] == label for x in reported):
                errors.append("%s: exploration incomplete: %s %s" % (label, j["incomplete_reason"], "; ".join(j["unsupported"])[:1500]))
        need = r.get("covers", [])
        if callable(need):
            need = need(r["p"])
        miss = [c for c in need if str(c) not in j["covers"]]
        if miss and not new_viols:
            errors.append("%s: reachability witnesses never reached: %s (the check would be vacuous)" % (label, miss))
        # validate engine executions against the native build
        for si, s in enumerate(j["samples"]):
            rc, out, vf = native(nat, fn, s["inputs"], r["p"], work, "s%d.%d" % (runs.index(r), si))
            obs = [int(x) for x in re.findall(r"^OBS (\d+)$", out, re.M)]
            bad_out = rc not in (0, 10)
            if rc == 10:
                continue  # this sample lies on a path with a (reported) failing assertion
            if bad_out or obs != s["obs"]:
                mism += 1
                if not new_viols:
                    errors.append("%s: engine and native disagree on a sampled execution: rc=%s native=%s engine=%s inputs=%s %s" % (label, rc, obs[:20], s["obs"][:20], s["inputs"][:40], out[-300:]))
            else:
                validated += 1
                if len(samples_out) < 12:
                    samples_out.append({"harness": label, "inputs": s["inputs"][:60], "observed": s["obs"][:20]})

    js = [r["j"] for r in runs if r["j"]]
    S = lambda k: sum(j[k] for j in js)
    funcs = sorted({f for j in js for f in j["functions"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("instructions"), "traces_validated_against_impl": validated,
            "samples": samples_out or [{"note": "no completed path"}],
            "harnesses": [{
                "fn": r["fn"], "bounds": r["p"], "bounds_text": r.get("bounds", ""), "complete": r["j"]["complete"], "paths": r["j"]["paths"],
                "forks": r["j"]["forks"], "symbolic_branches": r["j"]["symbolic_branches"], "assertions_checked": r["j"]["assertions_checked"],
                "instructions": r["j"]["instructions"], "queries": r["j"]["queries"], "sat": r["j"]["sat"], "unsat": r["j"]["unsat"],
                "unknown": r["j"]["unknown"], "cache_hits": r["j"]["cache_hits"], "solver_s": r["j"]["solver_s"], "wall_s": round(r["wall"], 2), "covers": r["j"]["covers"],
            } for r in runs if r["j"]],
            "queries": S("queries"), "solver_unsat": S("unsat"), "solver_sat": S("sat"), "solver_unknown": S("unknown"),
            "solver_s": round(sum(float(j["solver_s"]) for j in js), 3), "symbolic_branches": S("symbolic_branches"), "forks": S("forks"),
            "assertions_checked": S("assertions_checked"), "build_s": round(tb, 1), "functions_encoded_total": max([j["functions_executed"] for j in js] or [0]),
            "functions_encoded": [f[:120] for f in funcs][:150],
            "bounds_and_exclusions": P.get("bounds", ""),
        },
        "assumptions": P.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(reported),
    }
    if errors:
        ev["coverage"]["errors"] = [e[:800] for e in errors][:10]
    if knowns:
        ev["coverage"]["known_findings"] = [k["what"] for k, _, _ in knowns]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in {k["what"] for k, _, _ in knowns}:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for label, vi, path, out in reported:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s: %s: %s at %s (%d paths)" % (label, vi["kind"], vi["msg"], vi["where"], vi["count"]))
        print("  inputs %s" % vi["values"][:60])
        print("  native: %s" % out.strip()[:400].replace("\n", " | "))
    for e in errors:
        print("ERROR " + e)
    if not keep:
        shutil.rmtree(work, ignore_errors=True)
        if not reported:
            shutil.rmtree(replay_dir, ignore_errors=True)
        shutil.rmtree(os.path.dirname(bc), ignore_errors=True)
    print("%s %s: %d harness runs, %d paths, %d instructions, %d queries (%d unsat, %d sat), solver %.1f s, %d native replays agree, %.1f s (build %.1f s)" % (
        prop, tier, len(runs), ev["coverage"]["states"], ev["coverage"]["transitions"], ev["coverage"]["queries"], ev["coverage"]["solver_unsat"],
        ev["coverage"]["solver_sat"], ev["coverage"]["solver_s"], validated, ev["wall_s"], tb))
    return 1 if reported else 2 if errors else 0


COMMON_ASSUMPTIONS = [
    "LLVM IR produced by the pinned rustc 1.70 (fat LTO, opt-level 1, overflow checks and debug assertions on) means what the machine code means; sampled paths are replayed natively to test this",
    "the symbolic executor /verif/engine and Z3 are trusted for 'unsat' answers; 'sat' answers are replayed natively",
    "allocation never fails; no real threads (rayon and rayon_croissant are replaced by order-preserving sequential stand-ins)",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Error as e:
        print("ERROR " + str(e))
        sys.exit(2)
