"""Build the rustc driver (if needed) and dump the resolved program of /repo's current tree."""
import fcntl, hashlib, json, os, pickle, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
FEATURES = "avif-native,serde,color_quant"


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, timeout=850):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS",
              "RUSTC_WORKSPACE_WRAPPER", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "RUSTC"):
        e.pop(k, None)
    if env:
        e.update(env)
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def base_env():
    return {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never"}


def hash_files(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tree_files(root, exts=None):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if exts is None or os.path.splitext(f)[1] in exts:
                out.append(os.path.join(d, f))
    return out


def nightly_sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"], env=base_env()).strip()


def driver():
    src = tree_files(os.path.join(VERIF, "driver", "src")) + [os.path.join(VERIF, "driver", "Cargo.toml")]
    h = hash_files(src)
    exe = os.path.join(BUILD, "driver", "debug", "mirdump")
    stamp = os.path.join(BUILD, "driver.stamp")
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h:
        return exe, h
    env = base_env()
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    sh(["cargo", "+nightly", "build", "--offline", "--quiet", "--manifest-path",
        os.path.join(VERIF, "driver", "Cargo.toml")], env=env)
    with open(stamp, "w") as f:
        f.write(h)
    return exe, h


def ensure_lock():
    lk = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lk):
        for c in ("/opt/vp/Cargo.lock", os.path.join(VERIF, "Cargo.lock.image")):
            if os.path.exists(c):
                shutil.copy(c, lk)
                return


def dump_path():
    """Returns (path to JSON dump, hash). Rebuilds from /repo's working tree; the cache key is the
    content of every source file that takes part in the build plus the driver itself."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        exe, dh = driver()
        ensure_lock()
        files = tree_files(os.path.join(REPO, "src")) + [os.path.join(REPO, "Cargo.toml")]
        for extra in ("build.rs", "Cargo.lock", "README.md"):
            p = os.path.join(REPO, extra)
            if os.path.exists(p):
                files.append(p)
        h = hashlib.sha256((hash_files(files) + dh + REPO + "release").encode()).hexdigest()[:24]
        out = os.path.join(BUILD, "dump-%s.json" % h)
        if os.path.exists(out):
            return out, h
        for f in os.listdir(BUILD):
            if f.startswith("dump-"):
                os.unlink(os.path.join(BUILD, f))
        tgt = os.path.join(BUILD, "target")
        # cargo's freshness cache would skip the wrapper: forget the crate itself (both cache layouts)
        shutil.rmtree(os.path.join(tgt, "debug", "build", "image"), ignore_errors=True)
        fp = os.path.join(tgt, "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("image-") and not d.startswith("image-webp"):
                    shutil.rmtree(os.path.join(fp, d))
        env = base_env()
        env.update({
            "CARGO_TARGET_DIR": tgt,
            "RUSTC_WORKSPACE_WRAPPER": exe,
            "MIRDUMP_CRATE": "image",
            "MIRDUMP_OUT": out,
            "LD_LIBRARY_PATH": nightly_sysroot() + "/lib",
            "CARGO_INCREMENTAL": "0",
            # what must hold in a release build: debug_assert! guards nothing
            "CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false",
            "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "true",
        })
        log = sh(["cargo", "+nightly", "check", "--offline", "--lib", "--manifest-path",
                  os.path.join(REPO, "Cargo.toml"), "--features", FEATURES], env=env)
        if not os.path.exists(out):
            raise BuildError("driver produced no dump\n" + log[-3000:])
        return out, h


def load():
    """Loads the dump as Python objects (pickle cache next to the JSON)."""
    p, h = dump_path()
    pk = p[:-5] + ".pickle"
    if os.path.exists(pk):
        try:
            with open(pk, "rb") as f:
                return pickle.load(f), h
        except Exception:
            pass
    with open(p) as f:
        d = json.load(f)
    tmp = pk + ".%d" % os.getpid()
    with open(tmp, "wb") as f:
        pickle.dump(d, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.rename(tmp, pk)
    return d, h


if __name__ == "__main__":
    t = time.time()
    print(dump_path(), "%.1fs" % (time.time() - t))
