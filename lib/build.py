"""Build the MIR dump driver (once) and dump /repo's current working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("S2GPP_REPO", "/repo")
CACHE = os.environ.get("S2GPP_CACHE", os.path.join(VERIF, ".cache"))


def _env():
    e = dict(os.environ)
    e["HOME"] = e.get("HOME", "/root")
    e["PATH"] = e["HOME"] + "/.cargo/bin:/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "CARGO_BUILD_RUSTC", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTDOCFLAGS"):
        e.pop(k, None)
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_INCREMENTAL"] = "0"
    return e


def _hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _files(root, exts):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x not in ("target", ".git", "node_modules")]
        for f in fs:
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def run(cmd, cwd, env, log):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append("$ %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.returncode


def driver(log):
    src = [os.path.join(VERIF, "driver", "src", "main.rs"), os.path.join(VERIF, "driver", "Cargo.toml")]
    tgt = os.path.join(CACHE, "driver-" + _hash(src))
    exe = os.path.join(tgt, "release", "mirdump")
    if not os.path.exists(exe):
        e = _env()
        e["CARGO_TARGET_DIR"] = tgt
        if run(["cargo", "build", "--release", "--offline"], os.path.join(VERIF, "driver"), e, log) != 0:
            raise RuntimeError("driver build failed\n" + log[-1])
    return exe


def dump(features="", log=None):
    """returns (dir with the JSON files, seconds). Raises RuntimeError when the tree does not compile."""
    log = log if log is not None else []
    os.makedirs(CACHE, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = driver(log)
        files = _files(os.path.join(REPO, "src"), (".rs",)) + [os.path.join(REPO, "Cargo.toml")]
        lockf = os.path.join(REPO, "Cargo.lock")
        made_lock = False
        if not os.path.exists(lockf) and os.path.exists("/opt/vp/Cargo.lock"):
            shutil.copy("/opt/vp/Cargo.lock", lockf)      # git-ignored by the project
        if os.path.exists(lockf):
            files.append(lockf)
        h = _hash(files + [exe])
        out = os.path.join(CACHE, "dump-%s%s" % (h, "-" + features if features else ""))
        if os.path.exists(os.path.join(out, "done")):
            return out, time.time() - t0
        for d in os.listdir(CACHE):
            if d.startswith("dump-") and d.endswith(features) and os.path.join(CACHE, d) != out:
                pth = os.path.join(CACHE, d)
                if time.time() - os.path.getmtime(pth) > 3600:
                    shutil.rmtree(pth, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        e = _env()
        sysroot = subprocess.run(["rustc", "--print", "sysroot"], env=e, stdout=subprocess.PIPE, text=True).stdout.strip()
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        tgt = os.path.join(CACHE, "target")
        e["CARGO_TARGET_DIR"] = tgt
        # cargo's freshness cache would skip the wrapper on a warm directory
        for sub in ("build/s2gpp", ".fingerprint"):
            p = os.path.join(tgt, "debug", sub)
            if sub == "build/s2gpp":
                shutil.rmtree(p, ignore_errors=True)
            elif os.path.isdir(p):
                for x in os.listdir(p):
                    if x.startswith("s2gpp-"):
                        shutil.rmtree(os.path.join(p, x), ignore_errors=True)
        inc = os.path.join(tgt, "debug", "incremental")
        if os.path.isdir(inc):
            for x in os.listdir(inc):
                if x.startswith("s2gpp"):
                    shutil.rmtree(os.path.join(inc, x), ignore_errors=True)
        e["MIRDUMP_OUT"] = out
        e["RUSTC_WORKSPACE_WRAPPER"] = exe
        fl = "ndarray-linalg/openblas-system" + ("," + features if features else "")
        cmd = ["cargo", "check", "--lib"] + ([] if features else ["--bins"]) + ["--offline", "--features", fl]
        rc = run(cmd, REPO, e, log)
        need = ["s2gpp-lib.json"] + ([] if features else ["s2gpp-bin.json"])
        if not all(os.path.exists(os.path.join(out, n)) for n in need):
            raise RuntimeError("MIR dump failed (rc=%d)\n%s" % (rc, log[-1]))
        if rc != 0 and not features:
            raise RuntimeError("tree does not compile\n%s" % log[-1])
        open(os.path.join(out, "done"), "w").write("ok\n")
    return out, time.time() - t0


if __name__ == "__main__":
    log = []
    try:
        print(dump("", log))
        # the Python binding: only its MIR is wanted, linking may fail
        print(dump("python", log))
    except RuntimeError as ex:
        print(str(ex)[-2000:])
    finally:
        if "-v" in sys.argv:
            print("\n".join(log))
