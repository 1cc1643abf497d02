"""Case generation, execution, confirmation, shrinking, replay and evidence.

A check is a subclass of `Check`.  A case is a plain structure (dict/list/str/
int/bytes/V) that `gen` draws from a `random.Random` seeded by
(VERIF_SEED, property, index), so a run is a pure function of the seed; `run`
executes it against real skyd processes and raises `Violation` when the oracle
is contradicted.
"""
import argparse, ctypes, hashlib, json, multiprocessing as mp, os, random, re, signal, ssl, struct, sys, time, traceback
from collections import Counter
import build as buildmod
from sky import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The oracle was contradicted. `sig` identifies a specific known finding."""

    def __init__(self, msg, sig=None):
        Exception.__init__(self, msg)
        self.sig = sig


def expect(got, want, what):
    if got != want:
        raise Violation(f"{what}: expected {want!r}, got {got!r}")


# ------------------------------------------------------------ case encoding
def enc(x):
    if isinstance(x, V):
        return {"$v": [x.t, enc(x.v)]}
    if isinstance(x, bytes):
        return {"$b": x.hex()}
    if isinstance(x, tuple):
        return {"$t": [enc(i) for i in x]}
    if isinstance(x, list):
        return [enc(i) for i in x]
    if isinstance(x, dict):
        return {k: enc(v) for k, v in x.items()}
    return x


def dec(x):
    if isinstance(x, dict):
        if "$v" in x:
            return V(x["$v"][0], dec(x["$v"][1]))
        if "$b" in x:
            return bytes.fromhex(x["$b"])
        if "$t" in x:
            return tuple(dec(i) for i in x["$t"])
        return {k: dec(v) for k, v in x.items()}
    if isinstance(x, list):
        return [dec(i) for i in x]
    return x


def short(x, n=700):
    s = x if isinstance(x, str) else json.dumps(enc(x))
    return s if len(s) <= n else s[:n] + f"...(+{len(s)-n} chars)"


# ------------------------------------------------------------ environment
class Env:
    """Servers and connections of one worker."""

    def __init__(self, exe, tier, seed, check):
        self.exe, self.tier, self.seed, self.check = exe, tier, seed, check
        self.servers = []
        self._srv = None
        self._conn = None
        self.counts = Counter()
        self.uniq = 0
        self.data = {}

    def count(self, *labels):
        for l in labels:
            self.counts[l] += 1

    def new_server(self, **kw):
        last = None
        for _ in range(3):
            s = Server(self.exe, start=False, **kw)
            self.servers.append(s)
            try:
                s.start()
                return s
            except StartFailed as e:
                last = e
                self.drop_server(s)
                if e.rc != "timeout":
                    break
        raise last

    def drop_server(self, s):
        if s in self.servers:
            self.servers.remove(s)
        if s is self._srv:
            self._srv = None
            self._conn = None
        s.destroy()

    def server(self, **kw):
        if self._srv is None or not self._srv.alive():
            if self._srv is not None:
                self.drop_server(self._srv)
            self._srv = self.new_server(**kw)
            self._conn = None
        return self._srv

    def conn(self):
        """A root connection to the worker's server, reused between cases."""
        if self._conn is None:
            self._conn = self.server().conn()
        return self._conn

    def drop_conn(self):
        if self._conn is not None:
            self._conn.close()
            self._conn = None

    def name(self, p="s"):
        self.uniq += 1
        return f"{p}{self.uniq}"

    def reset(self):
        self.drop_conn()
        for s in list(self.servers):
            self.drop_server(s)


# ------------------------------------------------------------ check base
class Check:
    def prepare(self):
        """Called once, after the server has been built."""

    pid = None
    level = "exploration"
    technique = ""
    rule = ""
    assumptions = []
    quick = 200
    thorough = 4000
    workers = 8
    cap = {"quick": 420, "thorough": 3000}
    shrink_keys = ("ops",)
    deterministic = True   # the oracle's verdict does not depend on timing
    tries = 3              # re-executions when confirming or replaying
    recycle = 0            # restart the worker's servers after this many cases (0: never)

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, env, case):
        """Returns True when the case was non-trivial (by `rule`)."""
        raise NotImplementedError

    def simplify(self, case):
        """Yields simpler variants of a failing case."""
        return ()

    def sample(self, case):
        return short(case)

    # ---- one execution, with every abnormal ending classified
    def execute(self, env, case):
        """None/True/False or a Violation instance."""
        try:
            return self.run(env, case)
        except Violation as v:
            return v
        except Closed as e:
            return self._abnormal(env, f"the server closed a connection that must stay usable ({e})")
        except ProtocolError as e:
            return self._abnormal(env, f"malformed server response: {e}")
        except Timeout as e:
            v = self._abnormal(env, f"no response within the limit ({e})")
            v.hang = True
            return v
        except StartFailed as e:
            if e.rc == "timeout":
                v = Violation("the server did not start within the limit")
                v.hang = True
                return v
            return Violation(f"the server did not start: exit {e.rc}: {e.log[-600:]}")
        except (ConnectionError, TimeoutError, ssl.SSLError, AssertionError, LookupError, TypeError, ValueError, AttributeError, struct.error):
            # the server did something that the check has no place for; reported only if it happens again
            v = self._abnormal(env, "a response or the end of a connection at a place where nothing like it can be: " + traceback.format_exc()[-900:])
            v.hang = True
            return v

    def _abnormal(self, env, msg):
        dead = [s for s in env.servers if not s.alive()]
        for s in env.servers:
            m = re.search(r"panicked at[^\n]*\n?[^\n]*", s.log()[-20000:] or "")
            if m:
                msg += f"; server log: {m.group(0)!r}"
                break
        if dead:
            msg += "; the server process is dead"
        return Violation(msg)


def _rng(seed, pid, i):
    return random.Random(f"{seed}:{pid}:{i}")


def _worker(check, exe, tier, seed, indices, deadline, stop, out):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    env = Env(exe, tier, seed, check)
    done = nontriv = 0
    hashes, samples, capped = [], [], False
    try:
        for n, i in enumerate(indices):
            if stop.is_set():
                break
            if time.time() > deadline:
                capped = True
                break
            case = check.gen(_rng(seed, check.pid, i), i, tier)
            t0 = time.time()
            r = check.execute(env, case)
            if os.environ.get("VERIF_VERBOSE"):
                print(f"case {i}: {time.time()-t0:.2f}s {r!r}", flush=True)
            done += 1
            if isinstance(r, Violation):
                out.put(("viol", i, enc(case), str(r), r.sig, getattr(r, "hang", False)))
                env.reset()
                if r.sig is None:
                    stop.set()
                    break
                continue
            if r:
                nontriv += 1
                hashes.append(hashlib.sha1(json.dumps(enc(case), sort_keys=True).encode()).hexdigest()[:16])
                if len(samples) < 2:
                    samples.append(check.sample(case))
            if check.recycle and (n + 1) % check.recycle == 0:
                env.reset()
    except Exception:
        out.put(("error", traceback.format_exc()))
        stop.set()
    finally:
        try:
            env.reset()
        except Exception:
            pass
        out.put(("done", done, nontriv, hashes, samples, dict(env.counts), capped))


def _die(*_):
    raise SystemExit(3)


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            d = json.loads(l)
            if d["property"] == pid:
                out[d["sig"]] = d["what"]
    return out


def shrink(check, env, case, msg, budget=60.0):
    t0 = time.time()
    runs = 0

    def fails(c):
        nonlocal runs
        runs += 1
        r = check.execute(env, c)
        if isinstance(r, Violation) and not getattr(r, "hang", False):
            if any(not s.alive() for s in env.servers):
                env.reset()
            else:
                env.drop_conn()
            return str(r)
        return None

    def ok():
        return time.time() - t0 < budget and runs < 400

    cur, curmsg = case, msg
    progress = True
    while progress and ok():
        progress = False
        for key in check.shrink_keys:
            lst = cur.get(key)
            if not isinstance(lst, list):
                continue
            n = max(1, len(lst) // 2)
            while n >= 1 and ok():
                i = 0
                while i < len(cur[key]) and ok():
                    cand = dict(cur)
                    cand[key] = cur[key][:i] + cur[key][i + n:]
                    m = fails(cand)
                    if m is not None:
                        cur, curmsg, progress = cand, m, True
                    else:
                        i += n
                n //= 2
        for cand in check.simplify(cur):
            if not ok():
                break
            m = fails(cand)
            if m is not None:
                cur, curmsg, progress = cand, m, True
                break
    return cur, curmsg, runs


def main(check, argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--cases", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--exe")
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    signal.signal(signal.SIGTERM, _die)
    try:
        exe = a.exe or os.environ.get("SKYD_EXE") or buildmod.build()
        check.prepare()
    except buildmod.BuildError as e:
        print(f"ERROR: {e}")
        return 2
    pid = check.pid
    known = load_known(pid)

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        case = dec(rep["case"])
        env = Env(exe, rep.get("tier", tier), rep.get("seed", a.seed), check)
        try:
            for _ in range(check.tries if not check.deterministic else 2):
                r = check.execute(env, case)
                if isinstance(r, Violation):
                    if r.sig in known and r.sig is not None:
                        print(f"KNOWN-FINDING: property={pid} {known[r.sig]}")
                        return 0
                    print(str(r))
                    print(f"VIOLATION property={pid} replay={a.replay}")
                    return 1
                env.reset()
        finally:
            env.reset()
        print("the replayed case passes")
        return 0

    n = a.cases or (check.quick if tier == "quick" else check.thorough)
    w = min(a.workers or check.workers, n)
    deadline = t0 + check.cap[tier]
    ctx = mp.get_context("fork")
    out, stop = ctx.Queue(), ctx.Event()
    procs = []
    for k in range(w):
        p = ctx.Process(target=_worker, args=(check, exe, tier, a.seed, range(k, n, w), deadline, stop, out))
        p.start()
        procs.append(p)
    viols, knowns, errors, notes = [], {}, [], []
    done = nontriv = 0
    hashes, samples, counts, capped = set(), [], Counter(), False
    left = w
    hard = deadline + 240
    while left:
        try:
            m = out.get(timeout=5)
        except Exception:
            if all(not p.is_alive() for p in procs) and out.empty():
                errors.append("a worker died")
                break
            if time.time() > hard:
                errors.append("workers did not finish")
                break
            continue
        if m[0] == "viol":
            if m[4] is not None and m[4] in known:
                knowns[m[4]] = knowns.get(m[4], 0) + 1
            else:
                viols.append(m)
                stop.set()
        elif m[0] == "error":
            errors.append(m[1])
        else:
            left -= 1
            done += m[1]
            nontriv += m[2]
            hashes.update(m[3])
            samples += m[4]
            counts.update(m[5])
            capped |= m[6]
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()

    rc, replay, message = 0, None, None
    if viols:
        viols.sort(key=lambda v: (v[5], v[1]))
        _, i, ecase, msg, sig, hang = viols[0]
        case = dec(ecase)
        env = Env(exe, tier, a.seed, check)
        confirmed = 0
        try:
            for _ in range(check.tries):
                r = check.execute(env, case)
                if isinstance(r, Violation):
                    confirmed += 1
                    msg = str(r)
                    env.reset()
                    break
                env.reset()
            if hang and not confirmed:
                # no answer in time once, and an answer in every repetition: the machine was too busy
                notes.append(f"case {i}: {msg} (not reproduced: not reported as a violation)")
            else:
                rc = 1
                runs = 0
                if confirmed and not hang and not a.no_shrink:
                    try:
                        case, msg, runs = shrink(check, env, case, msg)
                    except Exception:
                        pass
                d = os.path.join(VERIF, "evidence", "replays")
                os.makedirs(d, exist_ok=True)
                replay = os.path.join("evidence", "replays", f"{pid}-{tier}-{a.seed}.json")
                with open(os.path.join(VERIF, replay), "w") as f:
                    json.dump({"property": pid, "tier": tier, "seed": a.seed, "index": i, "message": msg,
                               "reproduced": bool(confirmed), "shrink_runs": runs, "case": enc(case)}, f, indent=1)
                message = msg
        finally:
            env.reset()
    ev = {
        "property": pid, "tier": tier, "seed": a.seed, "level": check.level,
        "coverage": {"evaluations": done, "distinct_nontrivial": len(hashes), "rule": check.rule,
                     "samples": (samples or [check.sample(check.gen(_rng(a.seed, pid, 0), 0, tier))])[:4],
                     "nontrivial_executions": nontriv, "classes": dict(sorted(counts.items())),
                     "planned": n, "time_capped": capped},
        "assumptions": list(check.assumptions), "wall_s": round(time.time() - t0, 2), "violations": int(rc == 1),
    }
    if knowns:
        ev["coverage"]["known_findings_hit"] = knowns
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{pid} {tier} seed={a.seed}: {done}/{n} cases, {len(hashes)} distinct non-trivial, {time.time()-t0:.1f}s"
          + (" (time cap reached)" if capped else ""))
    for x in notes:
        print("NOTE:", x)
    for k, v in sorted(counts.items()):
        print(f"  {k}: {v}")
    for sig, what in known.items():
        print(f"KNOWN-FINDING: property={pid} {what}")
    if rc == 1:
        print(message)
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    if errors:
        for e in dict.fromkeys(errors):
            print("ERROR:", e)
        return 2
    if done == 0 or not hashes:
        print("ERROR: nothing non-trivial was explored")
        return 2
    return 0
