"""Databases at rest: build one from a history, change its files, see what the next start makes of them."""
import os
from hist import *


def db_files(d):
    """{relative path: bytes} of the database files (not the log nor the lock file)."""
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            r = os.path.relpath(p, d)
            if r == "skyd.log" or n.startswith(".sky"):
                continue
            with open(p, "rb") as f:
                out[r] = f.read()
    return out


def put_files(d, files):
    """Makes the directory hold exactly these files."""
    have = db_files(d)
    for r in have:
        if r not in files:
            os.unlink(os.path.join(d, r))
    for r, b in files.items():
        if have.get(r) != b:
            p = os.path.join(d, r)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)


def put_one(d, r, b):
    with open(os.path.join(d, r), "wb") as f:
        f.write(b)


def try_start(srv):
    """None when it serves, else (exit code, log of this start)."""
    try:
        srv.start()
        return None
    except StartFailed as e:
        return e.rc, e.log


def panic_of(log):
    i = log.find("panicked at")
    return log[i - 40:i + 1500] if i >= 0 else log[-700:]


def judge_refusal(rc, log, what):
    if rc == "timeout":
        v = Violation(f"{what}: the server neither started nor refused within the limit")
        v.hang = True
        raise v
    if rc == 0:
        raise Violation(f"{what}: the server did not start but exited with success")
    if rc < 0 or rc >= 128 or rc == 101 or "panicked at" in log:
        raise Violation(f"{what}: the server ended abnormally (exit {rc}) instead of refusing: {panic_of(log)}")
