"""Building the program's intermediate representation from /repo's working tree."""
import fcntl, hashlib, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PEMV_REPO", "/repo")
DRIVER = os.path.join(VERIF, "driver")


class BuildFailed(Exception):
    pass


def cache_dir():
    if os.environ.get("PEMV_CACHE"):
        os.makedirs(os.environ["PEMV_CACHE"], exist_ok=True)
        return os.environ["PEMV_CACHE"]
    for d in (os.path.join(VERIF, ".cache"), os.path.join(tempfile.gettempdir(), "pemv-verif-cache")):
        try:
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, ".w%d" % os.getpid())
            open(p, "w").close()
            os.unlink(p)
            return d
        except OSError:
            continue
    return tempfile.mkdtemp()


def tree_files(root, names):
    out = []
    for n in names:
        p = os.path.join(root, n)
        if os.path.isfile(p):
            out.append(p)
        for d, ds, fs in os.walk(p):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            out += [os.path.join(d, f) for f in sorted(fs)]
    return out


def digest():
    h = hashlib.sha256()
    for root, names in ((REPO, ["src", "Cargo.toml", "Cargo.lock", "build.rs", ".cargo"]), (DRIVER, ["src", "Cargo.toml", "rustc.sh"])):
        for p in tree_files(root, names):
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def run(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildFailed("%s failed:\n%s" % (" ".join(cmd), r.stdout[-3000:]))


def build_driver(cache, env):
    target = os.path.join(cache, "driver")
    e = dict(env)
    e["CARGO_TARGET_DIR"] = target
    run(["cargo", "build", "--offline", "--quiet"], DRIVER, e)
    return os.path.join(target, "debug", "mirdump")


def build_dump():
    """The path of the dump for the current tree, built if it isn't there yet."""
    cache = cache_dir()
    with open(os.path.join(cache, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = os.path.join(cache, "dump-%s.json" % digest())
        if os.path.exists(out):
            return out
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        exe = build_driver(cache, env)
        sysroot = subprocess.check_output(["rustc", "+nightly", "--print", "sysroot"], text=True).strip()
        target = os.path.join(cache, "target")
        # Cargo must never consider the program itself up to date
        for d in (".fingerprint", "build", "incremental"):
            d = os.path.join(target, "debug", d)
            for n in os.listdir(d) if os.path.isdir(d) else []:
                if n == "pemv" or n.startswith("pemv-"):
                    shutil.rmtree(os.path.join(d, n))
        tmp = out + ".tmp%d" % os.getpid()
        env.update(
            LD_LIBRARY_PATH=sysroot + "/lib",
            MIRDUMP_SYSROOT=sysroot,
            MIRDUMP_CRATE="pemv",
            MIRDUMP_OUT=tmp,
            RUSTC=os.path.join(DRIVER, "rustc.sh"),
            CARGO_TARGET_DIR=target,
            RUSTC_WORKSPACE_WRAPPER=exe,
            RUSTFLAGS="--check-cfg=cfg(tarpaulin) --check-cfg=cfg(tarpaulin_include)",
        )
        check = ["cargo", "+nightly", "check", "--locked", "--offline", "--quiet"]
        run(check, REPO, env)
        if not os.path.exists(tmp):
            shutil.rmtree(target)
            run(check, REPO, env)
        if not os.path.exists(tmp):
            raise BuildFailed("no dump was written")
        for n in os.listdir(cache):
            if n.startswith("dump-"):
                p = os.path.join(cache, n)
                if p != tmp:
                    os.unlink(p)
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    print(build_dump())
