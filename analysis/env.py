"""Builds the MIR driver and dumps the facts of /repo's current working tree."""
import fcntl
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WORKSPACE = ("prexel", "eval", "prexel-server", "witness")


class BuildFailed(Exception):
    pass


def _build_root():
    root = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
    try:
        os.makedirs(root, exist_ok=True)
        p = os.path.join(root, ".w%d" % os.getpid())
        open(p, "w").close()
        os.unlink(p)
        return root
    except OSError:
        return tempfile.mkdtemp(prefix="prexel-verif-")


def _env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    for k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTFLAGS",
              "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    return e


def build_driver(root):
    e = _env()
    e["CARGO_TARGET_DIR"] = os.path.join(root, "driver")
    r = subprocess.run(["cargo", "+nightly", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "driver"), env=e,
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildFailed("driver: " + r.stderr[-3000:])
    return os.path.join(root, "driver", "debug", "mirfacts")


def sysroot_lib():
    r = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=_env(), capture_output=True, text=True)
    return r.stdout.strip() + "/lib"


def dump(args=("--workspace", "--all-features"), tag="all", cwd=None):
    """Type-check the current tree (or a crate that uses it) under the driver; returns {crate: json path}."""
    root = _build_root()
    with open(os.path.join(root, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = build_driver(root)
        target = os.path.join(root, "target")
        out = os.path.join(root, "facts-" + tag)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        # cargo would skip the driver for crates it thinks are fresh
        for sub in ("debug/build", "debug/.fingerprint", "debug/incremental"):
            d = os.path.join(target, sub)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    base = n.replace("_", "-")
                    if any(base == w or base.startswith(w + "-") for w in WORKSPACE):
                        shutil.rmtree(os.path.join(d, n), ignore_errors=True)
        e = _env()
        e["CARGO_TARGET_DIR"] = target
        e["MIRFACTS_OUT"] = out
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["LD_LIBRARY_PATH"] = sysroot_lib()
        e["CARGO_INCREMENTAL"] = "0"
        r = subprocess.run(["cargo", "+nightly", "check", "--offline", "--quiet"] + list(args), cwd=cwd or REPO, env=e,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildFailed(r.stderr[-4000:])
        return {n[:-5]: os.path.join(out, n) for n in os.listdir(out) if n.endswith(".json")}


def witness():
    """Type-check the crate that expands the macros of the current tree; returns {crate: json path}."""
    crate = os.path.join(_build_root(), "witness")
    shutil.rmtree(crate, ignore_errors=True)
    shutil.copytree(os.path.join(VERIF, "witness"), crate, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    p = os.path.join(crate, "Cargo.toml")
    s = open(p).read().replace("/repo/", REPO + "/")
    with open(p, "w") as f:
        f.write(s)
    return dump(args=(), tag="witness", cwd=crate)
