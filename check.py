#!/usr/bin/env python3
"""Decides one property of /repo by static analysis: check.py ID [quick|thorough]

Builds the analyser if needed, runs it as rustc on /repo's current source in each configuration, collects its findings.
Exit 0: no violation found. Exit 1 with a VIOLATION line: broken. Exit 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, tempfile, time, fcntl

sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SGC_REPO", "/repo")
T0 = time.time()
ALL = ["--all-features"]
NONE = ["--no-default-features"]
# (name, cargo arguments, profile arguments)
CONFIGS = {
    "dev-all": ("shogi_core", ALL, []),
    "release-all": ("shogi_core", ALL, ["--release"]),
    "dev-none": ("shogi_core", NONE, []),
    "dev-default": ("shogi_core", [], []),
    "release-none": ("shogi_core", NONE, ["--release"]),
    "dev-alloc": ("shogi_core", NONE + ["--features", "alloc"], []),
}
CHEAP = ["dev-all", "release-all", "dev-none"]
DEEP = ["dev-all", "release-all", "dev-none", "dev-default", "release-none", "dev-alloc"]
PLAN = {}
for p in "C04 C05 C06 C07 C08 C09 C10 C11 C17 C18 C19 C20 C21 C22 C24 C25 C27 C28 C34".split():
    PLAN[p] = (CHEAP, DEEP)
for p in "C12 C13 C14 C15 C16 C23 C30 C35".split():
    PLAN[p] = (["dev-all"], CHEAP)
# every feature combination of the core, and the C library's three
COMBOS = []
for mem in ([], ["alloc"], ["std"]):
    for k in range(8):
        COMBOS.append("+".join(["check"] + mem + [f for i, f in enumerate(["hash", "ord", "experimental"]) if k >> i & 1]))
        CONFIGS[COMBOS[-1]] = ("shogi_core", NONE + ["--features", ",".join(COMBOS[-1].split("+")[1:])], [])
CONFIGS.update({"c-std": ("shogi_core_c", [], []), "c-none": ("shogi_core_c", NONE, ["--profile", "release"]), "c-alloc": ("shogi_core_c", NONE + ["--features", "alloc"], ["--profile", "release"])})
CONFIGS["c-alloc-dev"] = ("shogi_core_c", NONE + ["--features", "alloc"], [])
PLAN["C29"] = (["c-alloc", "c-alloc-dev"],) * 2
PLAN["C33"] = (["c-none", "c-alloc-dev"],) * 2
PLAN["C31"] = (COMBOS + ["c-std", "c-none", "c-alloc"],) * 2
PLAN["C26"] = (["dev-all", "dev-default", "dev-alloc", "dev-none"],) * 2
for p in "C01 C02 C03".split():
    PLAN[p] = (CHEAP, CHEAP)
PLAN.update(json.load(open(os.path.join(HERE, "plan.json"))) if os.path.exists(os.path.join(HERE, "plan.json")) else {})
BUDGET = {"quick": 600, "thorough": 6 * 3600}


def fail(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def run(cmd, env=None, cwd=None, timeout=None):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def base_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_TARGET", "RUSTC", "RUSTFLAGS", "CARGO_BUILD", "CARGO_PROFILE", "SGC_"))}
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e.setdefault("HOME", "/root")
    return e


def sgc():
    """The analyser's binary, built from its sources in this directory."""
    d = os.path.join(HERE, "sgc")
    os.makedirs(os.path.join(d, "target"), exist_ok=True)
    with open(os.path.join(d, "target", ".lock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        r = run(["cargo", "+nightly", "build", "--release", "--offline", "--target-dir", os.path.join(d, "target")], base_env(), d)
        if r.returncode != 0:
            fail("the analyser does not build:\n" + r.stdout[-3000:])
    return os.path.join(d, "target", "release", "sgc")


def analyse(tool, prop, tier, config, budget, scratch):
    pkg, feats, prof = CONFIGS[config]
    out = os.path.join(scratch, config + ".json")
    tgt = os.path.join(scratch, "target-" + config)
    e = base_env()
    root = run(["rustc", "+nightly", "--print", "sysroot"], e).stdout.strip()
    e.update(LD_LIBRARY_PATH=root + "/lib", RUSTC_WORKSPACE_WRAPPER=tool, CARGO_TARGET_DIR=tgt, SGC_PROP=prop, SGC_TIER=tier, SGC_OUT=out, SGC_DEADLINE=str(int(budget)), SGC_JOBS=str(os.cpu_count() or 8), TMPDIR=scratch, SGC_REPO=REPO)
    r = run(["cargo", "+nightly", "check", "-p", pkg, "--offline", "--locked"] + feats + prof, e, REPO)
    shutil.rmtree(tgt, ignore_errors=True)
    if prop == "C31" and r.returncode != 0:
        return {"config": config, "errors": r.stdout}
    if not os.path.exists(out):
        fail(f"no result in configuration {config}:\n" + r.stdout[-3000:])
    j = json.load(open(out))
    j["config"] = config
    return j


def known(prop):
    """Exact keys of known findings: lines 'known: property=ID key=KEY | what fails'."""
    ks = {}
    for l in open(os.path.join(HERE, "known_findings.txt")):
        if l.startswith("known: property=%s key=" % prop):
            k, _, what = l.strip().split(" key=", 1)[1].partition(" | ")
            ks[k] = what
    return ks


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        sgc()
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    manifest = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    level = manifest.get(prop, {}).get("level", "other")
    floors = json.load(open(os.path.join(HERE, "floors.json")))
    tool = sgc()
    scratch = tempfile.mkdtemp(prefix="sgc-" + prop + "-")
    res = []
    try:
        confs = PLAN[prop][0 if tier == "quick" else 1]
        for c in confs:
            left = BUDGET[tier] - (time.time() - T0)
            res.append(analyse(tool, prop, tier, c, max(left, 20), scratch))
            if "errors" in res[-1]:
                continue
            if prop == "C26":
                import header
                bad, und_, facts = header.compare(REPO, c, res[-1]["notes"])
                res[-1]["facts"] += facts
                res[-1]["notes"] = [n for n in res[-1]["notes"] if "\"fn\"" in n]
                res[-1]["bad"] += [{"kind": "violation", "case": "header", "msg": m, "site": s, "witness": ""} for m, s in bad] + [{"kind": "undecided", "case": "header", "msg": m, "site": "", "witness": ""} for m in und_]
            if any(b["kind"] != "undecided" for b in res[-1]["bad"]):
                break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    # a configuration that does not compile, while another does
    broken = [r for r in res if "errors" in r]
    res = [r for r in res if "errors" not in r]
    if broken and not res:
        fail("no configuration compiles:\n" + broken[0]["errors"][-3000:])
    for r in broken:
        m = re.search(r"^(error.*?)$(?:\n\s*-->\s*(\S+))?", r["errors"], re.M)
        res.append(dict(res[0], config=r["config"], bad=[{"kind": "violation", "case": "features", "msg": "this combination of features does not compile: " + (m.group(1) if m else r["errors"][-300:]), "site": (m and m.group(2)) or "", "witness": ""}]))
    # findings
    kn = known(prop)
    viols, und, seen, shown = [], [], set(), set()
    for r in res:
        for m in r["missing"]:
            # an item may be absent from a smaller feature set
            if all(m in q["missing"] for q in res):
                und.append(f"[{r['config']}] {m}")
        if r["cases"] < r["planned"]:
            und.append(f"[{r['config']}] time ran out: {r['planned'] - r['cases']} of {r['planned']} cases were not analysed")
        for b in r["bad"]:
            if b["kind"] == "undecided":
                und.append(f"[{r['config']}] {b['case']}: {b['msg']} {b['site']}")
                continue
            key = "%s: %s" % (b["case"].split(" ")[0], b["msg"])
            if key in kn:
                if key not in shown:
                    print(f"KNOWN-FINDING: property={prop} {kn[key] or key}")
                shown.add(key)
                continue
            if (b["msg"], b["site"]) in seen:
                continue
            seen.add((b["msg"], b["site"]))
            viols.append(dict(b, config=r["config"]))
    ev = os.environ.get("SGC_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    planned = sum(r["planned"] + r["facts"] for r in res)
    done = sum(r["cases"] + r["facts"] for r in res)
    # a subject with an undecided or violated part is not discharged
    open_ = len({(u.split(": ")[0]) for u in und}) + len({(v["config"], v["case"] or v["site"]) for v in viols})
    fns = sorted({f for r in res for f in r["functions"]})
    own = [f for f in fns if not f.startswith(("core::", "<core::", "alloc::", "<alloc::", "std::"))]
    cov = {
        "explanation": "Abstract interpretation of the MIR (and queries over the type-checked program) of /repo's current source in the listed configurations. An obligation is one function analysed for all arguments of one class (a square, a move), or one fact about constants, types or declarations.",
        "configurations": [r["config"] for r in res],
        "obligations": planned,
        "discharged": max(done - open_, 0),
        "checker_cmd": f"python3 /verif/check.py {prop} {tier}",
        "trusted_base": "rustc's front end and MIR construction, the MIR semantics implemented in sgc, the specification in sgc/src",
        "evaluations": done,
        "distinct_nontrivial": len({s for r in res for s in r["subjects"]}) + sum(r["facts"] for r in res),
        "rule": "one case per public function and per class of arguments; non-trivial: distinct subjects and facts",
        "paths": sum(r["paths"] for r in res), "joins": sum(r["joins"] for r in res), "steps": sum(r["steps"] for r in res), "partitions": sum(r["splits"] for r in res),
        "functions_analysed": len(fns), "functions_of_the_crate": own[:400],
        "subjects": sorted({s for r in res for s in r["subjects"]})[:400],
        "notes": sorted({n for r in res for n in r["notes"]})[:200],
        "samples": [s for r in res for s in r["samples"]][:12] or [n for r in res for n in r["notes"]][:8],
        "undecided": und[:100], "undecided_count": len(und), "exhaustive": not und,
    }
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - T0, 2), "violations": len(viols),
               "assumptions": ["the analysed target is x86_64 Linux, little endian"]}, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {done} of {planned} obligations analysed in {len(res)} configurations, {cov['paths']} paths, {len(fns)} functions, {len(und)} undecided, {time.time() - T0:.1f} s")
    for u in und[:20]:
        print("UNDECIDED " + u)
    if viols:
        rp = os.path.join(ev, prop + ".violation.txt")
        with open(rp, "w") as f:
            for v in viols:
                f.write("property: %s\nconfiguration: %s\nfunction: %s\nfinding: %s: %s\nwhere: %s\nfor: %s\n\n" % (prop, v["config"], v["case"], v["kind"], v["msg"], v["site"], v["witness"]))
        for v in viols[:8]:
            print("  %s: %s [%s] at %s%s" % (v["case"], v["msg"], v["kind"], v["site"], " for " + v["witness"] if v["witness"] else ""))
        print(f"VIOLATION property={prop} replay={rp}")
        sys.exit(1)
    floor = floors.get(prop, {}).get(tier, 1)
    if planned < floor:
        fail(f"only {planned} obligations were found, expected at least {floor}")
    sys.exit(0)


if __name__ == "__main__":
    main()
