#!/usr/bin/env python3
"""Driver: decides one property by symbolic execution of the real code.

  check.py C10 [quick|thorough]

Rebuilds the encoding from /repo's working tree, runs the engine on every harness of the property,
replays solver models against the real code, writes evidence/<id>.json.
Exit 0: held on everything explored; 1: confirmed violation; 2: no verdict.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import conf  # noqa: E402

BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
HARN = os.path.join(ROOT, "harness")
TRIPLE = "x86_64-unknown-linux-gnu"
ENV = dict(os.environ)
ENV["RUSTUP_TOOLCHAIN"] = "stable"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_TARGET_DIR", None)
JOBS = int(os.environ.get("VT_JOBS", "8"))
T0 = time.time()
FIRST, QUICK = 40, 600  # quick tier: seconds for the first attempt of one run; seconds for everything
HUGE_TIME = 150
# runs over extents up to 2^64-1: a slow loop there is reported as reduced coverage, elsewhere as a hang
HUGE = r"h_c(03_(huge|jump_huge|thin)|04_(thin|huge)|05_zst|07_thin|08_|09_(reshape|edge|zst|swap)|11_empty|12_(extents|capacity)|13_huge|15_huge|16_over|19_units)"


# a run that had to be ended
LATE = {**{k: 0 for k in ("paths", "steps", "branches", "asserts_trivial", "asserts_solver", "q_sat", "q_unsat", "q_unknown", "q_cached", "q_fallback", "solver_ms", "max_query_ms", "wall_ms", "rc")},
        **{k: {} for k in ("killed", "covers")}, **{k: [] for k in ("violations", "samples", "functions")}, "incomplete": {"time limit": 1}}


def log(*a):
    print(f"[{time.time() - T0:6.1f}s]", *a, flush=True)


class Broken(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=None):
    e = dict(ENV)
    if env:
        e.update(env)
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def need(r, what):
    if r.returncode != 0:
        print(r.stdout[-6000:])
        raise Broken(f"{what} failed (exit {r.returncode})")
    return r.stdout


def engine():
    need(sh(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(ROOT, "engine"), env={"CARGO_TARGET_DIR": os.path.join(BUILD, "engine")}), "engine build")
    return os.path.join(BUILD, "engine", "release", "symx")


_bin = None


def llvm(tool):
    global _bin
    if _bin is None:
        _bin = os.path.join(sh(["rustc", "--print", "sysroot"]).stdout.strip(), "lib", "rustlib", TRIPLE, "bin")
    return os.path.join(_bin, tool)


def features(prop, tier, extra=()):
    f = [prop.lower()] + list(extra)
    if tier == "thorough":
        f.append("thorough")
    return ",".join(f)


def variant(name):
    return conf.VARIANTS[name]


def crate_dir(var):
    v = variant(var)
    return os.path.join(ROOT, v["dir"])


def build_ir(prop, prof, tier, var, entries):
    """compile harness + matreex + std to one LLVM module and print it"""
    d = os.path.join(BUILD, f"{prop}-{var}-{prof}")
    tgt = os.path.join(d, "t")
    os.makedirs(d, exist_ok=True)
    cargo_prof = {"dev": "dev", "rel": "symrel"}[prof]
    out = {"dev": "debug", "rel": "symrel"}[prof]
    deps = os.path.join(tgt, TRIPLE, out, "deps")
    # stale intermediate files of an earlier tree must never be picked up
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.startswith(("vharness", "libvharness")):
                p = os.path.join(deps, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
    for f in os.listdir(os.path.dirname(deps)) if os.path.isdir(os.path.dirname(deps)) else []:
        if "vharness" in f and os.path.isfile(os.path.join(os.path.dirname(deps), f)):
            os.unlink(os.path.join(os.path.dirname(deps), f))
    fp = os.path.join(tgt, TRIPLE, out, ".fingerprint")
    if os.path.isdir(fp):
        for f in os.listdir(fp):
            if f.startswith(("vharness", "matreex")):
                shutil.rmtree(os.path.join(fp, f))
    r = sh(["cargo", "rustc", "--offline", "-q", "--lib", "--crate-type", "cdylib", "--features", features(prop, tier), "--profile", cargo_prof, "--target", TRIPLE],
           cwd=crate_dir(var), env={"CARGO_TARGET_DIR": tgt, "RUSTFLAGS": "-C save-temps -C opt-level=0 -C no-prepopulate-passes"})
    need(r, f"building the harness ({var}, {prof})")
    bc = [f for f in os.listdir(deps) if f.endswith(".lto.after-restriction.bc")]
    if len(bc) != 1:
        raise Broken(f"expected one LTO module, found {bc}")
    obc, oll = os.path.join(d, "m.bc"), os.path.join(d, "m.ll")
    need(sh([llvm("opt"), "-passes=internalize,globaldce,function(sroa),globaldce", "-internalize-public-api-list=" + ",".join(entries), os.path.join(deps, bc[0]), "-o", obc]), "opt")
    need(sh([llvm("llvm-dis"), obc, "-o", oll]), "llvm-dis")
    for f in os.listdir(deps):
        if f.endswith((".bc", ".ll")) or ".rcgu." in f:
            os.unlink(os.path.join(deps, f))
    return oll


def build_replay(prop, prof, tier, var):
    tgt = os.path.join(BUILD, f"{prop}-{var}-r{prof}")
    fp = os.path.join(tgt, f"r{prof}", ".fingerprint")
    if os.path.isdir(fp):
        for f in os.listdir(fp):
            if f.startswith(("vharness", "matreex")):
                shutil.rmtree(os.path.join(fp, f))
    r = sh(["cargo", "build", "--offline", "-q", "--bin", "replay", "--features", features(prop, tier, ["replay"]), "--profile", f"r{prof}"], cwd=crate_dir(var), env={"CARGO_TARGET_DIR": tgt})
    need(r, f"building the replay program ({var}, {prof})")
    return os.path.join(tgt, f"r{prof}", "replay")


def run_native(binary, harness, path, timeout=20):
    try:
        r = subprocess.run([binary, harness], env={**ENV, "VT_REPLAY": path, "RUST_BACKTRACE": "0"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace", text=True,
                           preexec_fn=limit)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_miri(prop, tier, var, prof, harness, path, strict=False):
    tgt = os.path.join(BUILD, f"{prop}-{var}-miri")
    flags = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
    if not strict:
        flags += " -Zmiri-disable-stacked-borrows"
    env = {"CARGO_TARGET_DIR": tgt, "RUSTUP_TOOLCHAIN": "nightly", "MIRIFLAGS": flags, "VT_REPLAY": path, "XDG_CACHE_HOME": os.path.join(BUILD, "cache")}
    cmd = ["cargo", "miri", "run", "--offline", "-q", "--bin", "replay", "--features", features(prop, tier, ["replay"]), "--profile", "dev" if prof == "dev" else "symrel", "--", harness]
    try:
        r = sh(cmd, cwd=crate_dir(var), env=env, timeout=400)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return "timeout", ""


def write_replay(path, prop, run, v):
    with open(path, "w") as f:
        f.write(f"# property {prop} harness {run['h']} variant {run['var']} profile {run['prof']} tier {run.get('tier', 'quick')}\n")
        f.write(f"# {v['kind']}: {v['msg']}\n".replace("\n", " ").strip() + "\n")
        for s in v.get("stack", [])[:12]:
            f.write(f"#   at {s}\n")
        for n, w, x in v["inputs"]:
            f.write(f"{n} {w} {x}\n")


def confirm(prop, tier, run, v, path):
    """does the real code fail on the model's inputs?  returns a description or None"""
    notes = []
    for prof in [run["prof"]]:
        try:
            b = build_replay(prop, prof, tier, run["var"])
        except Broken as e:
            return None, str(e)
        rc, out = run_native(b, run["h"], path)
        tail = " | ".join(out.strip().splitlines()[-3:])
        if rc in (90, 91, 92):
            return f"native {prof}: {tail}", ""
        if isinstance(rc, int) and rc < 0:
            return f"native {prof}: killed by signal {-rc}: {tail}", ""
        if rc == "timeout":
            return f"native {prof}: does not terminate within 20 s", ""
        notes.append(f"native {prof} exit {rc}: {tail}")
    if v["kind"] in ("ub", "race", "assert", "abort", "panic"):
        rc, out = run_miri(prop, tier, run["var"], run["prof"], run["h"], path, strict=v["kind"] == "race")
        m = re.search(r"error: Undefined Behavior: .*", out)
        if m:
            return f"miri: {m.group(0)}", ""
        if rc in (90, 91, 92):
            return f"miri: {' | '.join(out.strip().splitlines()[-3:])}", ""
        m = re.search(r"error: abnormal termination: .*", out)
        if m:
            return f"miri: {m.group(0)}", ""
        notes.append(f"miri exit {rc}: {' | '.join(out.strip().splitlines()[-3:])[-400:]}")
    return None, "; ".join(notes)


def main():
    prop = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    C = conf.PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(EVID, "replay")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(EVID, "replay", f))
    runs = []
    for r in C["runs"]:
        if tier == "quick" and r.get("thorough_only"):
            continue
        shards = r.get("shards", 1) if tier == "quick" else r.get("tshards", r.get("shards", 1))
        profs = r.get("profs", ["dev", "rel"]) if tier == "quick" else r.get("tprofs", ["dev", "rel"])
        for prof in profs:
            for s in range(shards):
                runs.append(dict(r, tier=tier, prof=prof, shard=s, shards=shards, var=r.get("var", "std")))
    only = os.environ.get("VT_ONLY")
    if only:
        runs = [r for r in runs if re.search(only, r["h"] + ":" + r["prof"])]
    combos = sorted({(r["var"], r["prof"]) for r in runs})
    for v in {r["var"] for r in runs}:
        prep = variant(v).get("prepare")
        if prep:
            prep(ROOT)
    entries = {v: sorted({r["h"] for r in runs if r["var"] == v}) for v, _ in combos}
    ll, rep = {}, {}
    with cf.ThreadPoolExecutor(8) as ex:
        fe = ex.submit(engine)
        fi = {c: ex.submit(build_ir, prop, c[1], tier, c[0], entries[c[0]]) for c in combos}
        fr = {}
        for c in combos:
            fr[c] = ex.submit(build_replay, prop, c[1], tier, c[0])
        symx = fe.result()
        for c in combos:
            ll[c] = fi[c].result()
        for c in combos:
            rep[c] = fr[c].result()
    log(f"{prop} {tier}: encoding rebuilt ({', '.join('/'.join(c) for c in combos)})")

    tl = int(os.environ.get("VT_TIME", C.get("time", 600) if tier == "quick" else C.get("ttime", 6000)))

    # a violation is replayed on the real code as soon as it is reported; once one is confirmed the
    # verdict is settled and the remaining runs are not started
    stop, live = [], {}
    confirmed, unconfirmed, seen, known_hit = [], [], set(), []
    known = conf.known_findings(ROOT)

    def end_one(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass

    def end_all():
        for p in list(live.values()):
            end_one(p)

    def on_term(*_):
        stop.append(True)
        end_all()
        os._exit(143)

    signal.signal(signal.SIGTERM, on_term)

    def look(i, d):
        for v in d.get("violations", []):
            r = runs[i]
            top = next((s for s in v["stack"] if "matreex" in s), "")
            key = (r["h"], v["kind"], v["msg"][:80], re.sub(r"C[sp][0-9A-Za-z]+_", "", top))
            if key in seen:
                continue
            seen.add(key)
            kf = next((k for k in known if k["property"] == prop and conf.matches(k, r, v)), None)
            if kf:
                known_hit.append(kf)
                continue
            path = os.path.join(EVID, "replay", f"{prop}-{len(confirmed) + len(unconfirmed) + 1}.txt")
            if confirmed or len(unconfirmed) >= 6 or (tier == "quick" and unconfirmed and time.time() - T0 > QUICK):
                continue
            write_replay(path, prop, r, v)
            how, why = confirm(prop, tier, r, v, path)
            what = f"{r['h']} ({r['var']}/{r['prof']}): {v['kind']}: {v['msg']}"
            if how:
                confirmed.append((path, what, how))
                with open(path, "a") as f:
                    f.write(f"# confirmed: {how}\n# rerun: python3 {ROOT}/replay.py {path}\n")
                stop.append(True)
                end_all()
                return
            unconfirmed.append((path, what, why))

    def one(i, limit):
        r = runs[i]
        out = os.path.join(BUILD, f"{prop}-out-{i}.json")
        if os.path.exists(out):
            os.unlink(out)
        o = dict(conf.DEFAULT_OPTS)
        o.update(r.get("opts", {}))
        if tier == "thorough":
            o.update(r.get("topts", {}))
        cmd = [symx, ll[(r["var"], r["prof"])], "--entry", r["h"], "--out", out, "--time", str(int(max(5, limit))), "--shard", f"{r['shard']}/{r['shards']}"]
        for k, x in o.items():
            cmd += [f"--{k}", str(x)]
        if re.match(HUGE, r["h"]):
            cmd += ["--long", "1"]
        if stop:
            return None
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
        live[i] = p
        if stop:
            end_all()
        try:
            txt, _ = p.communicate(timeout=limit + 60)
        except subprocess.TimeoutExpired:
            end_one(p)
            txt, _ = p.communicate()
            live.pop(i, None)
            return None if stop else "late"
        live.pop(i, None)
        if stop:
            return None
        if not os.path.exists(out):
            return {"crash": txt[-2000:], "rc": p.returncode}
        d = json.load(open(out))
        d["rc"] = p.returncode
        return d

    res = [None] * len(runs)
    # the quick tier has a deadline: every run first gets a share of it, then the unfinished ones get the rest
    first, deadline = (tl, None) if tier == "thorough" else (min(tl, FIRST), QUICK)
    todo = sorted(range(len(runs)), key=lambda i: -runs[i].get("weight", 1))
    for phase in (0, 1):
        again = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            if phase == 0:
                limit = first
            else:
                batches = -(-len(todo) // JOBS)
                limit = min(tl, (deadline - (time.time() - T0)) / batches)
                if limit < first * 1.5:
                    break
            # a slow loop over a huge extent does not end with more time either
            futs = {ex.submit(one, i, min(limit, HUGE_TIME) if tier == "quick" and re.match(HUGE, runs[i]["h"]) else limit): i for i in todo}
            for f in cf.as_completed(futs):
                i = futs[f]
                d = f.result()
                if d == "late":
                    log(f"  {runs[i]['h']} {runs[i]['prof']} {runs[i]['shard']}/{runs[i]['shards']}: ended {limit + 60:.0f} s after its start without an answer")
                    d = None if res[i] is not None else dict(LATE, entry=runs[i]["h"])
                if d is None and res[i] is not None:
                    continue
                res[i] = d
                r = runs[i]
                if d is None:
                    continue
                if "crash" in d:
                    log(f"  {r['h']} {r['prof']} {r['shard']}/{r['shards']}: ENGINE CRASH rc={d['rc']} {d['crash'][-300:]}")
                elif os.environ.get("VT_V") or d["violations"] or d["incomplete"]:
                    log(f"  {r['h']} {r['prof']} {r['shard']}/{r['shards']}: {d['paths']} paths {d['steps']} steps {d['q_sat'] + d['q_unsat']} queries, solver {d['solver_ms']} ms, wall {d['wall_ms']} ms, viol {len(d['violations'])}, incomplete {d['incomplete']}, killed {d['killed']}")
                if not stop and "crash" not in d:
                    look(i, d)
                if "crash" not in d and "time limit" in d["incomplete"]:
                    again.append(i)
        if stop or not again or not deadline:
            break
        todo = again

    skipped = sum(1 for d in res if d is None)
    if skipped:
        log(f"  {skipped} of {len(runs)} runs not made: a violation is confirmed")
        runs = [r for r, d in zip(runs, res) if d is not None]
        res = [d for d in res if d is not None]

    # validate the encoding: sampled path models run natively must produce the same observations
    validated, mismatches = 0, []
    jobs = []
    for i, d in enumerate(res):
        if "crash" in d:
            continue
        for k, s in enumerate(d["samples"]):
            jobs.append((i, k, s))

    def validate(j):
        i, k, s = j
        r = runs[i]
        path = os.path.join(BUILD, f"{prop}-val-{i}-{k}.txt")
        write_replay(path, prop, r, {"kind": "sample", "msg": "", "inputs": s["inputs"]})
        rc, out = run_native(rep[(r["var"], r["prof"])], r["h"], path)
        obs = [l[4:] for l in out.splitlines() if l.startswith("OBS ")]
        os.unlink(path)
        if rc == 0 and obs == s["obs"]:
            return None
        return f"{r['h']} {r['prof']}: exit {rc}, native {obs[:20]} engine {s['obs'][:20]} {out[-300:]}"

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for m in ex.map(validate, jobs):
            if m is None:
                validated += 1
            else:
                mismatches.append(m)

    crashes = [f"{runs[i]['h']} {runs[i]['prof']}: {d['crash'][-200:]}" for i, d in enumerate(res) if "crash" in d]
    incomplete, reduced, explored = {}, {}, {}
    for i, d in enumerate(res):
        explored[runs[i]["h"]] = explored.get(runs[i]["h"], 0) + d.get("paths", 0)
    for i, d in enumerate(res):
        for k, c in d.get("incomplete", {}).items():
            # a limit of the machine is not a limit of the method: what was explored stands, and is reported
            limit = re.search(r"time limit|path limit|step limit|solver undecided|values enumerated", k) and explored[runs[i]["h"]] > 0
            t = reduced if limit else incomplete
            kk = f"{runs[i]['h']} {runs[i]['prof']}: {k}"
            t[kk] = t.get(kk, 0) + c
    # vacuity: every situation a harness names must have been reached
    covers = {}
    for i, d in enumerate(res):
        for k, c in d.get("covers", {}).items():
            kk = f"{runs[i]['h']}: {k}"
            covers[kk] = covers.get(kk, 0) + c
    missing = []
    for r in [] if skipped else runs:
        for k in r.get("covers", []):
            kk = f"{r['h']}: {k}"
            if kk not in covers and not only:
                missing.append(kk)
    missing = sorted(set(missing))
    # ... unless that harness was not explored completely
    cut = {k.split()[0] for k in reduced}
    for k in [k for k in missing if k.split(":")[0] in cut]:
        missing.remove(k)
        reduced[k.replace(":", " any:", 1) + " not reached"] = 1

    ok = [d for d in res if "crash" not in d]
    S = lambda k: sum(d[k] for d in ok)
    raw = {}
    for d in ok:
        for nme, c, t in d["functions"]:
            a = raw.get(nme, (0, 0))
            raw[nme] = (max(a[0], c), max(a[1], t))
    names = demangle(sorted(raw))
    fns = {}
    for k, (c, t) in raw.items():
        nme = generic_name(names.get(k, k))
        if nme is None:
            continue
        a = fns.get(nme, (0, 0, 0))
        fns[nme] = (max(a[0], c), max(a[1], t), a[2] + 1)
    samples = []
    for i, d in enumerate(ok):
        for s in d["samples"][-1:]:
            samples.append({"harness": d["entry"], "inputs": {a: b for a, _, b in s["inputs"]}, "observations": s["obs"]})
    rid = sorted({(r["h"], r["prof"]) for r in runs})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
        "level": "model_checking",
        "coverage": {
            "states": sum(1 for _ in ()) + S("paths"),
            "transitions": S("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "meaning": "states = symbolic paths explored to their end; transitions = LLVM instructions executed symbolically; traces = path models replayed natively with identical observations",
            "harness_runs": [f"{h} {p}" for h, p in rid],
            "bounds": C.get("tbounds", C["bounds"]) if tier == "thorough" else C["bounds"],
            "outside_bounds": C.get("outside", ""),
            "queries": {"sat": S("q_sat"), "unsat": S("q_unsat"), "unknown": S("q_unknown"), "answered_from_cache": S("q_cached"), "needed_the_portfolio": S("q_fallback")},
            "solver_seconds": round(S("solver_ms") / 1000, 2),
            "longest_query_seconds": round(max([d["max_query_ms"] for d in ok] or [0]) / 1000, 2),
            "symbolic_branches": S("branches"),
            "assertions": {"needing_a_query": S("asserts_solver"), "settled_by_path_condition": S("asserts_trivial")},
            "paths_ended_early": merge([d["killed"] for d in ok]),
            "situations_reached": covers,
            "undecided": {**incomplete, **reduced},
            "functions_encoded": [f"{k} [{c}/{t} blocks, {m} instances]" for k, (c, t, m) in sorted(fns.items())][:600],
            "crate_functions_encoded": len(fns),
            "function_instances_encoded": len(raw),
        },
        "assumptions": C.get("assumptions", []) + conf.ASSUMPTIONS,
        "wall_s": round(time.time() - T0, 1),
        "violations": len(confirmed),
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop} {tier}: {len(runs)} runs, {S('paths')} paths, {S('steps')} steps, {S('q_sat') + S('q_unsat')} queries, solver {S('solver_ms') / 1000:.1f} s, {validated}/{len(jobs)} traces validated, {len(fns)} crate functions")
    for k in known_hit:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    code = 0
    for m in mismatches[:5]:
        log("TRACE MISMATCH", m)
    for p, w, y in unconfirmed:
        log("UNCONFIRMED", w, "--", y, "--", p)
    for k, c in list(incomplete.items())[:20]:
        log("UNDECIDED", k, c)
    for k, c in list(reduced.items())[:20]:
        log("REDUCED COVERAGE", k, c)
    for k in missing:
        log("NOT REACHED", k)
    for c in crashes:
        log("ENGINE", c)
    if mismatches or unconfirmed or incomplete or missing or crashes:
        code = 2
    for p, w, h in confirmed:
        log("confirmed:", w, "--", h)
    for p, w, h in confirmed[:1]:
        print(f"VIOLATION property={prop} replay={p}")
        code = 1
    log(f"{prop} {tier}: exit {code}")
    return code


def merge(ds):
    o = {}
    for d in ds:
        for k, v in d.items():
            o[k] = o.get(k, 0) + v
    return o


def generic_name(n):
    """the crate's function behind one instance: hashes, type arguments and primitive names removed; None for others"""
    n = re.sub(r"\[[0-9a-f]{8,16}\]", "", n)
    if "matreex" not in n:
        return None
    out, depth, i = [], 0, 0
    while i < len(n):
        ch = n[i]
        if ch == "<" and (depth or (i and (n[i - 1].isalnum() or n[i - 1] == ":"))):
            if depth == 0:
                out.append("<_>")
            depth += 1
        elif ch == ">" and depth and n[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    n = "".join(out).replace("::<_>", "")
    if not re.match(r"<*&?(mut )?\(?matreex|<.* as matreex|<.*matreex::Matrix<_> as", n):
        return None
    return re.sub(r"\b([iu](8|16|32|64|128|size)|f32|f64)\b", "prim", n)


def demangle(names):
    t = shutil.which("rustfilt") or shutil.which("c++filt")
    if not names or not t:
        return {}
    try:
        r = subprocess.run([t], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=60)
        o = r.stdout.splitlines()
        return dict(zip(names, o)) if len(o) == len(names) else {}
    except Exception:
        return {}


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        log("BROKEN:", e)
        sys.exit(2)
