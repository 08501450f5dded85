"""usage: mkseed.py LIST.py [ids]  -- plants the bugs described in LIST.py and keeps those that are confirmed.

LIST.py defines S = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=<body of fn main>)].
A bug is confirmed when, in a scratch copy of /repo, it builds, the stable tests pass, and the
demonstration passes without it and fails with it.  Line ends (CRLF) of the sources are kept."""
import json, os, shutil, subprocess, sys

SEED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO = """#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
protofish = { path = "$repo" }
bytes = "1.0"
[workspace]
EOT
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTFLAGS="-A bindings_with_variant_name" CARGO_TARGET_DIR="$t/target"
cargo build -q --offline --manifest-path "$t/Cargo.toml" || exit 3
timeout 60 "$t/target/debug/demo"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    work = "/tmp/seedwork"
    for s in ns["S"]:
        if want and s["id"] not in want:
            continue
        shutil.rmtree(work, ignore_errors=True)
        sh("git -C /repo worktree prune; cp -a /repo %s" % work, "/")
        bad = None
        for f, old, new, *every in s["edits"]:
            p = os.path.join(work, f)
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1 and not (every and old in t):
                bad = "edit matches %d times: %s" % (t.count(old), old[:60])
                break
            open(p, "w", newline="").write(t.replace(old, new))
        d = os.path.join(SEED, s["id"])
        if bad is None:
            diff = subprocess.run("git diff", cwd=work, shell=True, capture_output=True).stdout
            # every line taken away has to be one of the original repository
            for f in {e[0] for e in s["edits"]}:
                gone = [l for l in sh("git diff -U0 -- %s" % f, work).stdout.splitlines() if l.startswith("-") and not l.startswith("---")]
                base = set(l.rstrip("\r") for l in sh("git show refs/verif/base:%s" % f, "/repo").stdout.splitlines())
                if not any(g[1:].rstrip("\r") in base for g in gone):
                    bad = "changes no original line in " + f
        if bad is None:
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "wb").write(diff)
            src = s["demo"]
            if "fn main" not in src:
                src = "#![allow(unused)]\nuse protofish::{context::*, decode::*};\nuse bytes::Bytes;\n\nfn main() {\n" + src + "\n}\n"
            open(d + "/demo.rs", "w").write(src)
            demo = DEMO
            if s.get("must_not_build"):
                # the demonstration is a program the crate must not accept; control.rs shows the set-up is sound
                demo = demo.replace('cargo build -q --offline --manifest-path "$t/Cargo.toml" || exit 3\ntimeout 60 "$t/target/debug/demo"\n',
                    'cp "$here/control.rs" "$t/src/main.rs"\ncargo build -q --offline --manifest-path "$t/Cargo.toml" || exit 3\n'
                    'cp "$here/demo.rs" "$t/src/main.rs"\nif cargo build -q --offline --manifest-path "$t/Cargo.toml" 2> "$t/err"; then\n    echo "the program builds"; exit 1\nfi\n'
                    'grep -q "error\\[%s\\]" "$t/err" || exit 3\n' % s["must_not_build"])
                open(d + "/control.rs", "w").write(s["control"])
            open(d + "/demo.sh", "w").write(demo)
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            env = dict(os.environ, RUSTFLAGS="-A bindings_with_variant_name", CARGO_NET_OFFLINE="true")
            r = sh("cargo test --workspace --no-fail-fast --offline 2>&1 | grep -E 'test result|panicked|^error' | sort | uniq -c", work, env=env)
            ok = "FAILED" not in r.stdout and "error" not in r.stdout and "test result: ok" in r.stdout
            a = sh("bash %s/demo.sh" % d, "/repo")
            b = sh("bash %s/demo.sh" % d, work)
            if not ok:
                bad = "tests: " + r.stdout[-400:]
            elif a.returncode != 0:
                bad = "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-600:]
            elif b.returncode == 0:
                bad = "demo passes with the bug"
            elif b.returncode == 3:
                bad = "does not build: " + b.stderr[-600:]
            if bad:
                shutil.rmtree(d)
        print(s["id"], bad or "confirmed (exit %d: %s)" % (b.returncode, (b.stdout + b.stderr).strip().splitlines()[:1] and (b.stderr.strip().splitlines() or [''])[-1][:90]))
        sys.stdout.flush()
    shutil.rmtree(work, ignore_errors=True)


main()
