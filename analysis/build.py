"""Building the MIR driver and dumping /repo's current source in both build configurations."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

CONFIGS = {
    "fallback": (["--features", "serde"], "x86-64"),
    "all-features": (["--all-features"], "x86-64-v4"),
}


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:" + e.get("PATH", "")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUSTFLAGS", "RUSTUP_TOOLCHAIN", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def driver():
    """path of the driver binary, built if needed"""
    d = os.path.join(VERIF, "driver")
    exe = os.path.join(d, "target", "debug", "mirdump")
    srcs = [os.path.join(d, "Cargo.toml")] + [os.path.join(d, "src", f) for f in sorted(os.listdir(os.path.join(d, "src")))]
    h = hashlib.sha256()
    for s in srcs:
        h.update(open(s, "rb").read())
    stamp = os.path.join(d, "target", "stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    e = env()
    p = subprocess.run(["cargo", "+nightly", "build", "--offline"], cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(p.stdout.decode(errors="replace"))
        raise RuntimeError("the MIR driver does not build")
    open(stamp, "w").write(h.hexdigest())
    return exe


def source_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(root, f) for f in sorted(fs)]
    files.append(os.path.join(REPO, "Cargo.toml"))
    for f in files:
        h.update(f.encode())
        h.update(open(f, "rb").read())
    d = os.path.join(VERIF, "driver", "src")
    for f in sorted(os.listdir(d)):
        h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()[:20]


def dump(cfg):
    """path of the JSON dump of one configuration of the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver()
        out = os.path.join(CACHE, "%s-%s.json" % (cfg, source_hash()))
        if os.path.exists(out):
            return out
        for f in os.listdir(CACHE):
            if f.startswith(cfg + "-") and f.endswith(".json"):
                os.remove(os.path.join(CACHE, f))
        feats, cpu = CONFIGS[cfg]
        if not os.path.exists(os.path.join(REPO, "Cargo.lock")) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", os.path.join(REPO, "Cargo.lock"))
        e = env()
        sysroot = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, check=True).stdout.decode().strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        e["MIRDUMP_CRATE"] = "vers_vecs"
        tmp = out + ".tmp"
        e["MIRDUMP_OUT"] = tmp
        e["RUSTFLAGS"] = "-C target-cpu=" + cpu
        td = os.path.join(CACHE, "target-" + cfg)
        e["CARGO_TARGET_DIR"] = td
        # cargo decides by time stamps: always rebuild the crate itself
        for root, dirs, _ in os.walk(td):
            for f in list(dirs):
                if f.replace("_", "-").startswith("vers-vecs"):
                    shutil.rmtree(os.path.join(root, f))
                    dirs.remove(f)
        e["CARGO_INCREMENTAL"] = "0"
        if os.path.exists(tmp):
            os.remove(tmp)
        p = subprocess.run(["cargo", "+nightly", "check", "--lib", "--offline"] + feats, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode or not os.path.exists(tmp):
            sys.stderr.write(p.stdout.decode(errors="replace")[-4000:])
            raise RuntimeError("/repo does not build in configuration " + cfg)
        os.rename(tmp, out)
        return out
