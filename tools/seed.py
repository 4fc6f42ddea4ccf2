"""Makes and validates planted bugs: seed.py [ID...] (all when none given).

Each entry of seeds/*.py below: id, property, edits [(file, old, new)], needs, breaks, demo (Rust main or shell).
A bug is kept only if it applies, builds, passes the stable tests, and its demo distinguishes the trees."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WS = "/tmp/seedws"
DEMO = '''#!/bin/bash
# Builds a small program against the library in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D/demo.rs" "$T/src/main.rs"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
shogi_core = { path = "$R/shogi_core", default-features = false, features = [%s] }
[workspace]
EOF
cd "$T" && CARGO_TARGET_DIR="$T/target" timeout 250 cargo run -q --offline %s
'''


def sh(cmd, cwd=None, ok=True):
    r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if ok and r.returncode:
        raise SystemExit(f"{cmd}: {r.stdout[-2000:]}")
    return r


def main():
    ns = {"ALLF": '"std", "hash", "ord", "experimental"'}
    seeds = []
    def S(id, prop, edits, needs, breaks, demo, features=ns["ALLF"], args="", sh_demo=None):
        seeds.append((id, prop, edits, needs, breaks, demo, features, args, sh_demo))
    exec(open(os.path.join(HERE, "tools", "seedlist.py")).read(), ns.setdefault("g", {"S": S}))
    extra = ns["g"].get("EXTRA", {})
    want = sys.argv[1:]
    for id, prop, edits, needs, breaks, demo, features, args, sh_demo in seeds:
        if want and id not in want:
            continue
        if not want and os.path.exists(os.path.join(HERE, "seeded", id)):
            continue
        if not os.path.exists(WS + "/repo"):
            os.makedirs(WS, exist_ok=True)
            sh(f"cp -a /repo {WS}/repo")
            for s in ("build", "test"):
                t = open(f"/opt/vp/{s}.sh").read().replace("/repo", WS + "/repo")
                open(f"{WS}/{s}.sh", "w").write(t)
        R = WS + "/repo"
        sh("git checkout -q -- . && git clean -fdq -e target", R)
        sh("git reset -q --hard $(git -C /repo rev-parse HEAD)", R)
        out = f"{WS}/{id}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        try:
            for f, old, new in edits:
                t = open(f"{R}/{f}").read()
                if t.count(old) != 1:
                    raise Exception(f"{f}: pattern occurs {t.count(old)} times: {old[:60]!r}")
                open(f"{R}/{f}", "w").write(t.replace(old, new))
            open(f"{out}/patch.diff", "w").write(sh("git diff", R).stdout)
            if sh_demo:
                open(f"{out}/demo.sh", "w").write(sh_demo)
            else:
                open(f"{out}/demo.sh", "w").write(DEMO % (features, args))
            demo = demo or extra.get(id)
            if demo:
                open(f"{out}/demo." + ("c" if "#include" in demo else "rs"), "w").write(demo)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{out}/meta.json", "w"), indent=1)
            os.chmod(f"{out}/demo.sh", 0o755)
            b = sh(f"bash {WS}/build.sh", ok=False)
            if b.returncode:
                raise Exception("does not build: " + b.stdout[-1500:])
            sh(f"bash {WS}/test.sh {WS}/out.json", ok=False)
            res = json.load(open(f"{WS}/out.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            passed = set(res.get("passed", []) if isinstance(res, dict) else [])
            stable = base.get("stable", base.get("passed", [])) if isinstance(base, dict) else base
            lost = [t for t in stable if t not in passed]
            if lost:
                raise Exception(f"tests fail: {lost[:5]}")
            d1 = sh(f"bash {out}/demo.sh", R, ok=False)
            if d1.returncode == 0:
                raise Exception("the demonstration passes with the change: " + d1.stdout[-500:])
            sh("git checkout -q -- .", R)
            sh(f"bash {WS}/build.sh")
            d0 = sh(f"bash {out}/demo.sh", R, ok=False)
            if d0.returncode:
                raise Exception("the demonstration fails without the change: " + d0.stdout[-1500:])
            dst = os.path.join(HERE, "seeded", id)
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(out, dst)
            print(f"{id}: kept ({d1.stdout.strip().splitlines()[-1][:120] if d1.stdout.strip() else ''})", flush=True)
        except Exception as e:
            print(f"{id}: REJECTED {e}", flush=True)


main()
