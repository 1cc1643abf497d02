"""Builds skyd from /repo's current working tree, offline, outside /repo.

The tree is mirrored into /verif/.build/ws (the same mirror rules that
/opt/vp/build.sh uses: the cli and sky-bench crates and the git-only dev
dependency are left out because they cannot be fetched here) and built into
/verif/.build/target.  Third-party dependencies are taken from a copy of
/opt/vp/target when that exists, else they are built from the cargo cache.

skyd itself is compiled with release semantics (no debug assertions, no
overflow checks): that is what users run, and `cfg!(debug_assertions)` changes
observable behaviour (for example `@uuidstr` returns a constant).
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SKYD_REPO", "/repo")
BUILD = os.environ.get("SKYD_BUILD", os.path.join(VERIF, ".build"))
WS = os.path.join(BUILD, "ws")
TARGET = os.path.join(BUILD, "target")
SKIP = {".git", "target", "cli", "sky-bench"}


class BuildError(Exception):
    pass


NIGHTLY = "nightly-x86_64-unknown-linux-gnu"


def _env(target=None):
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="1",
        CARGO_PROFILE_DEV_OPT_LEVEL="1",
        CARGO_PROFILE_DEV_DEBUG="line-tables-only",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=target or TARGET,
    )
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    return e


def _put(dst, data, mode):
    try:
        with open(dst, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    tmp = dst + ".tmp~"
    with open(tmp, "wb") as f:
        f.write(data)
    os.chmod(tmp, mode & 0o777)
    os.replace(tmp, dst)


def _sync(ws=None, system_allocator=False):
    """Mirror by content: a file gets a new mtime only when its bytes change."""
    want = set()
    WS = ws or globals()["WS"]
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in SKIP]
        for name in files:
            r = os.path.normpath(os.path.join(rel, name))
            src = os.path.join(root, name)
            if os.path.islink(src) and not os.path.exists(src):
                continue
            with open(src, "rb") as f:
                data = f.read()
            if r == "Cargo.toml":
                data = re.sub(rb'"(cli|sky-bench)", *', b"", data)
            elif r == "server/Cargo.toml":
                data = re.sub(rb"(?m)^skytable *= *\{ *git *=.*\n", b"", data)
            elif r == "Cargo.lock":
                want.add(r)
                # cargo rewrites the lock file in the mirror; refresh it only when the source changes
                stamp = os.path.join(os.path.dirname(WS), "lock.sha")
                h = hashlib.sha256(data).hexdigest()
                old = open(stamp).read() if os.path.exists(stamp) else ""
                if h != old or not os.path.exists(os.path.join(WS, r)):
                    _put(os.path.join(WS, r), data, 0o644)
                    with open(stamp, "w") as f:
                        f.write(h)
                continue
            elif r == "server/src/main.rs" and system_allocator:
                data = re.sub(rb"(?m)^[ \t]*#\[global_allocator\]", b"", data)
            want.add(r)
            _put(os.path.join(WS, r), data, os.stat(src).st_mode)
    for root, dirs, files in os.walk(WS):
        for name in files:
            r = os.path.normpath(os.path.join(os.path.relpath(root, WS), name))
            if r not in want:
                os.unlink(os.path.join(root, name))


def _seed_target():
    if os.path.isdir(os.path.join(TARGET, "debug")):
        return
    src = "/opt/vp/target/debug"
    os.makedirs(TARGET, exist_ok=True)
    if not os.path.isdir(os.path.join(src, "deps")):
        return
    tmp = os.path.join(TARGET, "debug.tmp")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    skip = re.compile(r"^(lib)?(skyd|harness|libsky|sky_macros)-[0-9a-f]")
    for d in ("deps", ".fingerprint", "build"):
        os.makedirs(os.path.join(tmp, d), exist_ok=True)
        names = [n for n in os.listdir(os.path.join(src, d)) if not skip.match(n)]
        paths = [os.path.join(src, d, n) for n in names]
        for i in range(0, len(paths), 500):
            subprocess.run(["cp", "-a", "--reflink=auto"] + paths[i:i + 500] + [os.path.join(tmp, d)], check=True)
    os.rename(tmp, os.path.join(TARGET, "debug"))


def _rcrypt():
    """A copy of the password hashing crate with the minimum cost factor (12 -> 4).

    Hashing at the production cost takes 0.3 s per login and per start and would dominate every check; the factor is a
    constant of the third-party crate, not of skyd.  Returns cargo options (none when the crate's source is not there).
    """
    src = sorted(glob.glob("/root/.cargo/registry/src/*/rcrypt-0.4.0"))
    if not src or os.environ.get("SKYD_FULL_COST"):
        return []
    dst = os.path.join(BUILD, "rcrypt")
    if not os.path.exists(os.path.join(dst, "done")):
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src[-1], dst)
        lib = os.path.join(dst, "src", "lib.rs")
        with open(lib) as f:
            t = f.read()
        t2 = t.replace("pub const DEFAULT_COST: u32 = 12;", "pub const DEFAULT_COST: u32 = 4;")
        if t2 == t:
            return []
        with open(lib, "w") as f:
            f.write(t2)
        for x in (".cargo-ok", ".cargo_vcs_info.json", "Cargo.lock"):
            if os.path.exists(os.path.join(dst, x)):
                os.unlink(os.path.join(dst, x))
        open(os.path.join(dst, "done"), "w").close()
    return ["--config", f'patch.crates-io.rcrypt.path="{dst}"']


def build(verbose=True):
    """Returns the path of a private copy of the skyd binary built from the current tree."""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _sync()
        _seed_target()
        cmd = ["cargo", "build", "--offline", "--workspace",
               "--config", "profile.dev.package.skyd.debug-assertions=false",
               "--config", "profile.dev.package.skyd.overflow-checks=false",
               "--config", "profile.dev.package.blowfish.opt-level=3"] + _rcrypt()
        p = subprocess.run(cmd, cwd=WS, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            sys.stderr.write(p.stdout.decode(errors="replace")[-8000:])
            raise BuildError("cargo build failed")
        exe = os.path.join(TARGET, "debug", "skyd")
        with open(exe, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()[:16]
        bindir = os.path.join(BUILD, "bin")
        os.makedirs(bindir, exist_ok=True)
        out = os.path.join(bindir, "skyd-" + h)
        if not os.path.exists(out):
            for old in os.listdir(bindir):
                p_old = os.path.join(bindir, old)
                try:
                    if time.time() - os.stat(p_old).st_mtime > 7200:
                        os.unlink(p_old)
                except OSError:
                    pass
            shutil.copy2(exe, out + ".tmp")
            os.utime(out + ".tmp")
            os.replace(out + ".tmp", out)
    if verbose:
        print(f"built {out} in {time.time()-t0:.1f}s", flush=True)
    return out


def build_asan(verbose=True):
    """The same server, compiled with AddressSanitizer (and the system's allocator, which the sanitizer replaces)."""
    base = os.path.join(BUILD, "asan")
    ws, target = os.path.join(base, "ws"), os.path.join(base, "target")
    os.makedirs(base, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _sync(ws, True)
        env = _env(target)
        env.update(RUSTUP_TOOLCHAIN=NIGHTLY, RUSTFLAGS="-Zsanitizer=address", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
        cmd = ["cargo", "build", "--offline", "-p", "skyd", "--target", "x86_64-unknown-linux-gnu",
               "--config", "profile.dev.package.skyd.debug-assertions=false",
               "--config", "profile.dev.package.skyd.overflow-checks=false",
               "--config", "profile.dev.package.blowfish.opt-level=3"] + _rcrypt()
        p = subprocess.run(cmd, cwd=ws, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            sys.stderr.write(p.stdout.decode(errors="replace")[-8000:])
            raise BuildError("cargo build failed")
        exe = os.path.join(target, "x86_64-unknown-linux-gnu", "debug", "skyd")
        with open(exe, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()[:16]
        out = os.path.join(base, "skyd-" + h)
        if not os.path.exists(out):
            for old in os.listdir(base):
                p_old = os.path.join(base, old)
                if old.startswith("skyd-") and time.time() - os.stat(p_old).st_mtime > 7200:
                    os.unlink(p_old)
            shutil.copy2(exe, out + ".tmp")
            os.utime(out + ".tmp")
            os.replace(out + ".tmp", out)
    if verbose:
        print(f"built {out} in {time.time()-t0:.1f}s", flush=True)
    return out


if __name__ == "__main__":
    print(build())
    print(build_asan())
