"""Shared machinery of the checks: build, drive, observe, record.

Every check drives the real `weaver` program, built from /repo's working tree,
and judges what it observes against an oracle written here from the documented
behaviour. A check ends with exit status 0 (the property held on everything
observed), 1 (VIOLATION), or 2 (the check itself could not do its work)."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = 8


class Result:
    __slots__ = ("args", "rc", "out", "err", "timed_out", "wall")

    def __init__(self, args, rc, out, err, timed_out, wall):
        self.args, self.rc, self.out, self.err = args, rc, out, err
        self.timed_out, self.wall = timed_out, wall

    @property
    def panicked(self):
        return ("panicked at" in self.err or self.rc == 101
                or (self.rc is not None and self.rc < 0))

    def json(self):
        return json.loads(self.out)

    def brief(self, n=1500):
        return (f"args={self.args!r} rc={self.rc} timed_out={self.timed_out}\n"
                f"--- stdout\n{self.out[:n]}\n--- stderr\n{self.err[-n:]}")


class HarnessError(Exception):
    pass


def build_env():
    env = dict(os.environ)
    env.update(HOME="/root", RUSTUP_TOOLCHAIN="1.96.1", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="",
               PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "LD_PRELOAD"):
        env.pop(k, None)
    return env


def build_weaver():
    os.makedirs(os.path.join(REPO, "ui", "dist"), exist_ok=True)
    p = subprocess.run(["cargo", "build", "--workspace", "--bin", "weaver", "--offline", "--locked"],
                       cwd=REPO, env=build_env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-6000:])
        raise HarnessError("the tree under test does not build")
    return os.path.join(REPO, "target", "debug", "weaver")


def stable_hash(x):
    if not isinstance(x, (str, bytes)):
        x = json.dumps(x, sort_keys=True, default=str)
    if isinstance(x, str):
        x = x.encode("utf-8", "surrogatepass")
    return hashlib.sha256(x).hexdigest()[:16]


class Check:
    def __init__(self, prop, tier, seed, level, rule, assumptions=()):
        self.prop, self.tier, self.seed, self.level, self.rule = prop, tier, seed, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.lock = threading.Lock()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.known_hits = {}
        self.errors = []
        self.work = tempfile.mkdtemp(prefix=f"wv-{prop}-", dir="/tmp")
        self.home = os.path.join(self.work, "home")
        os.makedirs(self.home)
        self.replay_root = os.path.join(VERIF, "replays", prop)
        self.weaver = None
        self.shim = None
        self.deadline = None
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf))["findings"]
                          if k["property"] == prop and k["status"] == "known"]

    # ------------------------------------------------------------- lifecycle
    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def setup(self, shim=False):
        src = build_weaver()
        self.weaver = os.path.join(self.work, "weaver")
        try:
            os.link(src, self.weaver)
        except OSError:
            shutil.copy2(src, self.weaver)
        if shim:
            self.shim = os.path.join(self.work, "perturb.so")
            subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", self.shim,
                            os.path.join(VERIF, "shim", "perturb.c"), "-ldl", "-lpthread"], check=True)
        self.t_run = time.time()
        # what does not fit is skipped and counted, so that a slow machine gives an answer all the same
        self.deadline = self.t_run + (3000 if self.thorough else 480)

    def rng(self, *key):
        return random.Random(f"{self.seed}/{self.prop}/" + "/".join(map(str, key)))

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    # ------------------------------------------------------------------ drive
    def run(self, args, cwd=None, env=None, stdin=None, timeout=120, perturb=None, perturb_log=None,
            binary=None):
        e = {"HOME": self.home, "PATH": "/usr/bin:/bin", "LANG": "C.UTF-8", "TERM": "dumb",
             "RUST_BACKTRACE": "0"}
        if perturb is not None and self.shim:
            e["LD_PRELOAD"] = self.shim
            e["PERTURB_SEED"] = str(perturb)
            if perturb_log:
                e["PERTURB_LOG"] = perturb_log
        if env:
            e.update(env)
        args = [str(a) for a in args]
        t = time.time()
        p = subprocess.Popen([binary or self.weaver] + args, cwd=cwd or self.work, env=e,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        timed_out = False
        try:
            out, err = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
        return Result(args, p.returncode, out.decode("utf-8", "replace"),
                      err.decode("utf-8", "replace"), timed_out, time.time() - t)

    # ---------------------------------------------------------------- observe
    def saw(self, signature, n=1, sample=None):
        """Records `n` judgements; `signature` identifies a distinct non-trivial observation."""
        with self.lock:
            self.evaluations += n
            if signature is not None:
                self.distinct.add(signature if isinstance(signature, str) and len(signature) <= 40
                                  else stable_hash(signature))
            if sample is not None and len(self.samples) < 8:
                self.samples.append(sample)

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, key, detail, keep=None):
        """Records a violation. `key` names the specific failing input or history."""
        with self.lock:
            for k in self.known:
                if re.fullmatch(k["key"], key):
                    self.known_hits.setdefault(k["key"], k["what"])
                    return
            if len(self.violations) >= 40:
                return
            idx = len(self.violations)
            d = os.path.join(self.replay_root, f"{idx:03d}")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "detail.txt"), "w") as f:
                f.write(f"property={self.prop} seed={self.seed} tier={self.tier}\nkey={key}\n\n{detail}\n")
            if keep:
                for src in ([keep] if isinstance(keep, str) else keep):
                    if os.path.isdir(src):
                        shutil.copytree(src, os.path.join(d, os.path.basename(src.rstrip("/"))),
                                        symlinks=True, dirs_exist_ok=True)
                    elif os.path.exists(src):
                        shutil.copy2(src, d)
            self.violations.append({"key": key, "replay": d, "detail": detail[:600]})

    def map(self, fn, items, jobs=JOBS):
        """Runs fn over items in a thread pool; an exception is a harness error, never a violation."""
        def wrapped(it):
            if self.deadline and time.time() > self.deadline:
                self.count("cases_skipped_for_time")
                return None
            try:
                return fn(it)
            except Exception:
                with self.lock:
                    self.errors.append(f"case {it!r}:\n{traceback.format_exc()}"[:3000])
                return None
        with cf.ThreadPoolExecutor(jobs) as ex:
            return list(ex.map(wrapped, items))

    # ----------------------------------------------------------------- finish
    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"evaluations": self.evaluations, "distinct_nontrivial": len(self.distinct),
                           "rule": self.rule, "samples": self.samples[:8] or ["none"],
                           **({"counters": self.counters} if self.counters else {})},
              "assumptions": self.assumptions,
              "violations": len(self.violations),
              "violation_list": [{k: v[k] for k in ("key", "replay", "detail")} for v in self.violations],
              "known_findings": sorted(self.known_hits),
              "wall_s": round(wall, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)
        for key, what in sorted(self.known_hits.items()):
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        for v in self.violations[:12]:
            print(f"VIOLATION property={self.prop} replay={v['replay']}")
            print("    " + v["key"] + ": " + v["detail"][:400].replace("\n", "\n    "))
        for e in self.errors[:2]:
            sys.stderr.write("HARNESS ERROR " + e + "\n")
        print(f"{self.prop} {self.tier}: {self.evaluations} judgements, {len(self.distinct)} distinct, "
              f"{len(self.violations)} violations, {len(self.errors)} harness errors, {wall:.1f}s "
              f"{json.dumps(self.counters, sort_keys=True)}")
        if self.violations:
            return 1
        if self.errors or self.evaluations == 0:
            return 2
        return 0


def diff_json(exp, got, path="$", out=None, limit=8):
    """A short list of differences between two JSON-like values."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(exp, dict) and isinstance(got, dict):
        for k in sorted(set(exp) | set(got), key=str):
            if k not in exp:
                out.append(f"{path}.{k}: unexpected {json.dumps(got[k], default=str)[:160]}")
            elif k not in got:
                out.append(f"{path}.{k}: missing, expected {json.dumps(exp[k], default=str)[:160]}")
            else:
                diff_json(exp[k], got[k], f"{path}.{k}", out, limit)
    elif isinstance(exp, list) and isinstance(got, list):
        if len(exp) != len(got):
            out.append(f"{path}: length {len(exp)} expected, got {len(got)}: "
                       f"{json.dumps(exp, default=str)[:200]} vs {json.dumps(got, default=str)[:200]}")
        for i, (a, b) in enumerate(zip(exp, got)):
            diff_json(a, b, f"{path}[{i}]", out, limit)
    elif type(exp) is bool or type(got) is bool:
        if exp is not got:
            out.append(f"{path}: expected {exp!r}, got {got!r}")
    elif exp != got:
        out.append(f"{path}: expected {json.dumps(exp, default=str)[:200]}, got {json.dumps(got, default=str)[:200]}")
    return out
