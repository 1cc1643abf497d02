"""Builds skysh (the interactive shell, /repo/cli) from /repo's current tree, offline.

Its three dependencies that are not in the repository (the skytable client, crossterm, rustyline) can not be fetched here.
They are replaced by the small crates in /verif/stubs: an own client for the protocol, terminal styles that do nothing, and a
line editor that reads the standard input as it is.  Everything under /repo/cli/src is compiled unchanged.
"""
import fcntl, hashlib, os, re, shutil, subprocess, sys
from build import REPO, BUILD, VERIF, BuildError, _env, _put

DIR = os.path.join(BUILD, "shell")
STUBS = os.path.join(VERIF, "stubs")


def _copy(src, dst):
    want = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ("target", ".git")]
        for n in files:
            rel = os.path.normpath(os.path.join(os.path.relpath(root, src), n))
            want.add(rel)
            with open(os.path.join(root, n), "rb") as f:
                data = f.read()
            if rel == "Cargo.toml" and src.endswith("/cli"):
                t = data.decode()
                for name in ("skytable", "crossterm", "rustyline"):
                    t = re.sub(rf"(?m)^{name} *=.*$", f'{name} = {{ path = "{STUBS}/{name}" }}', t)
                data = (t + "\n[workspace]\n").encode()
            _put(os.path.join(dst, rel), data, 0o644)
    for root, dirs, files in os.walk(dst):
        for n in files:
            rel = os.path.normpath(os.path.join(os.path.relpath(root, dst), n))
            if rel not in want and rel != "Cargo.lock":
                os.unlink(os.path.join(root, n))


def build():
    """Returns the path of a private copy of skysh."""
    os.makedirs(DIR, exist_ok=True)
    with open(os.path.join(DIR, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _copy(os.path.join(REPO, "cli"), os.path.join(DIR, "cli"))
        _copy(os.path.join(REPO, "libsky"), os.path.join(DIR, "libsky"))
        e = _env()
        e["CARGO_TARGET_DIR"] = os.path.join(DIR, "target")
        p = subprocess.run(["cargo", "build", "--offline"], cwd=os.path.join(DIR, "cli"), env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stderr.write(p.stdout.decode(errors="replace")[-8000:])
            raise BuildError("cargo build of the shell failed")
        exe = os.path.join(DIR, "target", "debug", "skysh")
        with open(exe, "rb") as f:
            out = os.path.join(DIR, "skysh-" + hashlib.sha256(f.read()).hexdigest()[:16])
        if not os.path.exists(out):
            shutil.copy2(exe, out + ".tmp")
            os.replace(out + ".tmp", out)
    return out


if __name__ == "__main__":
    print(build())
