"""Builds the MIR exporter and exports /repo's current working tree.

export() -> list of JSON files.  The export of a tree is cached under
/verif/.build by the content of every source file it depends on; a changed tree
is always compiled and exported again.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def cache_dir():
    for d in (os.path.join(HERE, ".build"), "/tmp/verif-build.%d" % os.getuid()):
        try:
            os.makedirs(d, exist_ok=True)
            t = os.path.join(d, ".w%d" % os.getpid())
            open(t, "w").close()
            os.unlink(t)
            return d
        except OSError:
            continue
    raise BuildError("no writable build directory")


def sh(cmd, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\1")
    return h.hexdigest()[:24]


def sources():
    out = []
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ("target", ".git", "tests", "benches")]
        for f in files:
            if f.endswith(".rs") or f in ("Cargo.toml", "Cargo.lock", "build.rs") or ".cargo" in base or f.startswith("rust-toolchain"):
                out.append(os.path.join(base, f))
    return out


def ensure_lock():
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists("/opt/vp/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", lock)


def driver(bd):
    src = os.path.join(HERE, "driver", "main.rs")
    rc, sysroot = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise BuildError("nightly toolchain: " + sysroot)
    sysroot = sysroot.strip().splitlines()[-1]
    out = os.path.join(bd, "mirex-" + hash_files([src]))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        rc, o = sh(["rustc", "+nightly", "-O", "--edition", "2021", src, "-o", tmp, "-C", "link-arg=-Wl,-rpath,%s/lib" % sysroot])
        if rc:
            raise BuildError("exporter does not build:\n" + o[-3000:])
        os.rename(tmp, out)
    return out, sysroot


def util_manifest(bd):
    """a scratch package whose only dependency is /repo/util (no file is written in /repo)"""
    d = os.path.join(bd, "utilws")
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write('[package]\nname = "utilws"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\nutil = { path = "%s/util" }\n' % REPO)
    open(os.path.join(d, "src", "lib.rs"), "w").close()
    lock = os.path.join(REPO, "Cargo.lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    return os.path.join(d, "Cargo.toml")


def cargo(bd, drv, sysroot, out, extra, manifest=None):
    tgt = os.path.join(bd, "target-" + os.path.basename(drv).split("-")[-1])
    for d in ("debug/incremental",):
        shutil.rmtree(os.path.join(tgt, d), ignore_errors=True)
    # the freshness cache would skip the exporter
    for base in ("debug/build", "debug/.fingerprint"):
        p = os.path.join(tgt, base)
        if os.path.isdir(p):
            for n in os.listdir(p):
                if n.split("-")[0] in ("newton_rootfinder", "util"):
                    shutil.rmtree(os.path.join(p, n), ignore_errors=True)
    env = dict(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=tgt, RUSTC_WRAPPER=drv, MIREX_OUT=out, MIREX_CRATES="newton_rootfinder,util",
               LD_LIBRARY_PATH=sysroot + "/lib", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    return sh(["cargo", "+nightly", "check", "--offline", "--manifest-path", manifest or os.path.join(REPO, "Cargo.toml")] + extra, env)


def export():
    bd = cache_dir()
    with open(os.path.join(bd, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return export_locked(bd)


def export_locked(bd):
    ensure_lock()
    drv, sysroot = driver(bd)
    key = hash_files(sources()) + "-" + os.path.basename(drv).split("-")[-1][:8]
    out = os.path.join(bd, "dump-" + key)
    files = [os.path.join(out, "newton_rootfinder.json"), os.path.join(out, "util.json")]
    if all(os.path.exists(f) for f in files):
        return files
    # keep at most a few exports
    old = sorted((d for d in os.listdir(bd) if d.startswith("dump-")), key=lambda d: os.path.getmtime(os.path.join(bd, d)))
    for d in old[:-3]:
        shutil.rmtree(os.path.join(bd, d), ignore_errors=True)
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    rc, o = cargo(bd, drv, sysroot, tmp, ["--all-features", "--lib"])
    if rc == 0:
        rc, o2 = cargo(bd, drv, sysroot, tmp, ["-p", "util", "--lib"], util_manifest(bd))
        o += o2
    if rc or not all(os.path.exists(os.path.join(tmp, os.path.basename(f))) for f in files):
        raise BuildError("/repo does not compile or was not exported:\n" + o[-3000:])
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    return files


if __name__ == "__main__":
    t = time.time()
    print("\n".join(export()), "%.1fs" % (time.time() - t))
