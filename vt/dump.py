"""Builds the MIR dump of /repo's current working tree and loads it."""
import hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DRIVER = os.path.join(VERIF, "driver")


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()


def _env():
    env = dict(os.environ)
    env["LD_LIBRARY_PATH"] = sysroot() + "/lib"
    env.pop("RUSTC_WRAPPER", None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def driver_path():
    p = os.path.join(DRIVER, "target", "debug", "mirdump")
    src = os.path.join(DRIVER, "src", "main.rs")
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src):
        build_driver()
    return p


def build_driver():
    r = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=DRIVER, env=_env(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("driver build failed:\n" + r.stderr[-4000:])


def repo_files():
    out = []
    for root in ("src", "tests"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            for f in fs:
                out.append(os.path.join(d, f))
    for f in ("Cargo.toml", "Cargo.lock", "build.rs"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for p in repo_files():
        if "/tests/" in p:
            continue
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    for p in (os.path.join(DRIVER, "src", "main.rs"),):
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def make_dump():
    """Runs the driver over the current tree (again, unless this exact tree was already dumped)."""
    drv = driver_path()
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash()
    out = os.path.join(BUILD, "mir-%s.json" % key)
    if os.path.exists(out):
        return out
    # Build in a private copy, so nothing in /repo changes and runs do not disturb each other.
    work = tempfile.mkdtemp(prefix="mir", dir=BUILD)
    try:
        src = os.path.join(work, "repo")
        os.makedirs(src)
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(src, "src"))
        for f in ("Cargo.toml", "Cargo.lock", "build.rs", "README.md"):
            p = os.path.join(REPO, f)
            if os.path.exists(p):
                shutil.copy(p, src)
        if not os.path.exists(os.path.join(src, "Cargo.lock")):
            for lock in ("/opt/vp/Cargo.lock", os.path.join(VERIF, "Cargo.lock.protofish")):
                if os.path.exists(lock):
                    shutil.copy(lock, os.path.join(src, "Cargo.lock"))
                    break
        env = _env()
        tmp = os.path.join(work, "out.json")
        env.update(
            RUSTC_WORKSPACE_WRAPPER=drv,
            MIRDUMP_OUT=tmp,
            CARGO_TARGET_DIR=os.path.join(work, "target"),
            RUSTFLAGS="-A bindings_with_variant_name -A warnings -Zmir-opt-level=0 -Zub-checks=no -Coverflow-checks=on -Cdebug-assertions=on",
        )
        shared = os.path.join(BUILD, "deps-target")
        if os.path.isdir(shared):
            shutil.copytree(shared, os.path.join(work, "target"), symlinks=True)
            # Never let cargo believe the crate under analysis is fresh.
            fp = os.path.join(work, "target", "debug", ".fingerprint")
            for d in os.listdir(fp):
                if d.startswith("protofish-"):
                    shutil.rmtree(os.path.join(fp, d))
        r = subprocess.run(["cargo", "+nightly", "check", "--lib", "--offline"], cwd=src, env=env,
                           capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise BuildError("cargo check failed:\n" + r.stderr[-6000:])
        os.replace(tmp, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


def load():
    with open(make_dump()) as f:
        return json.load(f)


if __name__ == "__main__":
    print(make_dump())
