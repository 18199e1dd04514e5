#!/usr/bin/env python3
"""Builds the simulation that decides a property from /repo's working tree, searches, and reports.

usage: check.py PROPERTY [--tier quick|thorough] [--runs N] [--seed N]
       check.py --replay FILE
       check.py --build [FAMILY...]
       check.py --determinism PROPERTY [--runs N]
"""
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(ROOT, "target")
FAMILIES = json.load(open(os.path.join(ROOT, "sims", "families.json")))
VARIANTS = {
    # name: (cargo arguments, directory of the artefacts)
    "rel": (["--release"], "release"),
    "dbg": (["--features", "dbg"], "debug"),
}


def env():
    e = dict(os.environ)
    home = os.environ.get("HOME") or "/root"
    e.setdefault("HOME", home)
    e["CARGO_HOME"] = "/root/.cargo"
    e["RUSTUP_HOME"] = "/root/.rustup"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_INCREMENTAL"] = "0"
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET",
              "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    top = [os.path.join(REPO, "Cargo.toml")]
    for base, dirs, files in os.walk(os.path.join(REPO, "crates")):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        top += [os.path.join(base, f) for f in sorted(files)]
    for f in top:
        h.update(f.encode() + b"\0")
        try:
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        except OSError:
            h.update(b"-")
    return h.hexdigest()


def build(family, variant):
    """Builds one simulation binary, from the current content of /repo whatever the file times."""
    args, sub = VARIANTS[variant]
    stamps = os.path.join(TARGET, "stamps")
    os.makedirs(stamps, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(stamps, f"{family}-{variant}")
        want = tree_hash()
        try:
            have = open(stamp).read()
        except OSError:
            have = ""
        if have != want:
            fp = os.path.join(TARGET, sub, ".fingerprint")
            names = os.listdir(os.path.join(REPO, "crates"))
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if any(re.fullmatch(re.escape(n) + r"-[0-9a-f]{16}", d) for n in names):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        where = os.path.join(ROOT, "sims", family)
        more = {}

        def cargo(*flags):
            return subprocess.run(["cargo", "build", "--offline", "--quiet", *flags, *args], cwd=where,
                                  env=env() | more, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                  stderr=subprocess.STDOUT, text=True, errors="replace")

        r = cargo("--locked")
        if r.returncode != 0 and "--locked" in r.stdout:
            # a crate of /repo changed its dependencies: resolve anew, and leave the lock file alone
            lock_file = os.path.join(where, "Cargo.lock")
            kept = open(lock_file).read()
            try:
                r = cargo()
            finally:
                with open(lock_file, "w") as f:
                    f.write(kept)
        if r.returncode != 0 and family == "lang":
            # what is generated may be at fault: build with syntax that was generated before, and say so
            more["SIM_LANG_FALLBACK"] = "1"
            again = cargo("--locked")
            if again.returncode == 0:
                print(r.stdout[-3000:])
                r = again
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print(f"ERROR: building sims/{family} ({variant}) failed")
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(want)
    return os.path.join(TARGET, sub, f"sim-{family}")


def family_of(prop):
    for f, props in FAMILIES.items():
        if prop in props:
            return f
    print(f"ERROR: unknown property {prop}")
    sys.exit(2)


def run_env():
    e = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C"}
    if "VSIM_STDERR" in os.environ:
        e["VSIM_STDERR"] = "1"
    return e


def opt(name, default=None):
    if name in sys.argv:
        return sys.argv[sys.argv.index(name) + 1]
    return default


def total(results, key):
    return sum(r.get(key, 0) for r in results)


def merged(results, key):
    m = {}
    for r in results:
        for k, v in r.get(key, {}).items():
            m[k] = m.get(k, 0) + v
    return m


def check(prop):
    t0 = time.time()
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(opt("--seed", os.environ.get("VERIF_SEED", "1")))
    except ValueError:
        seed = 1
    family = family_of(prop)
    bins = {v: build(family, v) for v in VARIANTS}
    build_s = time.time() - t0
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vsim-")
    results, violation = [], None
    try:
        for n, (variant, binary) in enumerate(bins.items()):
            out = os.path.join(scratch, f"{variant}.json")
            rp = os.path.join(ROOT, "replays", f"{prop}-{variant}.replay")
            if os.path.exists(rp):
                os.unlink(rp)
            cmd = [binary, "run", "--prop", prop, "--seed", str(seed * 16 + n), "--tier", tier,
                   "--variant", variant, "--out", out, "--replay-out", rp, "--scratch", scratch,
                   "--deadline", "200" if tier == "quick" else "5400"]
            if opt("--runs"):
                cmd += ["--runs", opt("--runs")]
            r = subprocess.run(cmd, env=run_env(), stdin=subprocess.DEVNULL)
            if r.returncode not in (0, 1) or not os.path.exists(out):
                print(f"ERROR: {binary} ended with {r.returncode}")
                return 2
            d = json.load(open(out))
            results.append(d)
            print(f"{prop} {variant}: {d['evaluations']} runs, {d['distinct_nontrivial']} distinct "
                  f"non-trivial, {d['distinct_states']} states, {d['steps']} events, "
                  f"{d['search_wall_s']:.1f}s; repeated {d['repeated']}, differing {d['differing']}; "
                  f"faults {d['faults']} probes {d['probes']}")
            if "violation" in d:
                again = subprocess.run([binary, "replay", rp, "--scratch", scratch], env=run_env(),
                                       stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, text=True,
                                       errors="replace")
                d["violation"]["replay_check"] = again.stdout.strip().splitlines()[-1:]
                violation = (variant, rp, d["violation"])
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    wall = sum(r["search_wall_s"] for r in results)
    evals = total(results, "evaluations")
    first = results[0]
    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": total(results, "distinct_nontrivial"),
        "rule": first["rule"] + " (counts are per variant, summed; the variants use different seeds)",
        "samples": [{"variant": r["variant"], **s} for r in results for s in r["samples"]][:4],
        "simulated_runs": evals,
        "seeds_per_hour": round(evals / wall * 3600) if wall > 0 else 0,
        "simulated_time_s": round(total(results, "sim_nanos") / 1e9, 6),
        "events": total(results, "steps"),
        "decisions_drawn": total(results, "decisions"),
        "context_switches": total(results, "switches"),
        "faults_injected": merged(results, "faults"),
        "rare_conditions_reached": merged(results, "probes"),
        "distinct_states": total(results, "distinct_states"),
        "distinct_states_measure": first["state_measure"],
        "determinism": {"runs_repeated_in_another_process": total(results, "repeated"),
                        "of_these_differing": total(results, "differing")},
        "components_real": first["real"],
        "components_stubbed": first["stub"],
        "variants": [{k: r[k] for k in ("variant", "evaluations", "distinct_nontrivial",
                                        "distinct_states", "search_wall_s", "requested")}
                     for r in results],
        "build_s": round(build_s, 1),
    }
    if violation:
        coverage["violation"] = violation[2]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage,
        "assumptions": FAMILIES[family][prop],
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if violation else 0,
    }
    path = os.path.join(ROOT, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    if violation:
        variant, rp, v = violation
        print(f"{v['class']}: {v['message']}")
        print(f"found in variant {variant} by run {v['run']} (seed {v['seed']}); minimised from "
              f"{v['decisions_before']} to {v['decisions']} decisions; replay: {v.get('replay_check')}")
        print(f"VIOLATION property={prop} replay={rp}")
        return 1
    print(f"{prop}: held on everything explored ({evals} runs)")
    return 0


def replay(path):
    kv = dict(l.split(": ", 1) for l in open(path).read().split("---")[0].splitlines() if ": " in l)
    prop, variant = kv["property"], kv["variant"]
    b = build(family_of(prop), variant)
    scratch = tempfile.mkdtemp(prefix="vsim-")
    try:
        return subprocess.run([b, "replay", os.path.abspath(path), "--scratch", scratch],
                              env=run_env()).returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def determinism(prop):
    bad = 0
    for v in VARIANTS:
        b = build(family_of(prop), v)
        scratch = tempfile.mkdtemp(prefix="vsim-")
        try:
            bad |= subprocess.run([b, "determinism", "--prop", prop, "--runs", opt("--runs", "500"),
                                   "--scratch", scratch], env=run_env()).returncode
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return bad


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--determinism":
        return determinism(a[1])
    if a[0] == "--build":
        for f in a[1:] or FAMILIES:
            for v in VARIANTS:
                build(f, v)
            print(f"built {f}")
        return 0
    return check(a[0])


if __name__ == "__main__":
    sys.exit(main())
