"""Runner for the property checks.

A check module (checks/Cxx.py) declares FACETS: each facet is a Hypothesis
strategy producing one JSON-able case and a function deciding that case against
an oracle.  The runner forks one process per facet, generates cases from
VERIF_SEED, shrinks the first failure, re-executes the shrunk case in a fresh
process, writes it as a replay file and reports it.

Outcomes: exit 0 (held on everything explored), exit 1 with a VIOLATION line,
exit 2 (error of the check itself).
"""
import contextlib
import ctypes
import errno
import gc
import hashlib
import importlib
import io
import json
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DEPS = os.path.join(VERIF, ".deps")
WHEELS = "/opt/veriftools/wheels"


class Violation(Exception):
    """the property is broken by this case"""


class Hang(Violation):
    """the case does not end"""


class HarnessError(Exception):
    """the check itself went wrong"""


def expect(condition, message="", *args):
    if not condition:
        raise Violation(str(message) + "".join(" " + str(a) for a in args))


class Rec:
    """what one case reports about itself"""

    def __init__(self):
        self.labels = []
        self.trivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def mark_trivial(self):
        self.trivial = True


class Facet:

    def __init__(self, name, strategy, fn, quick=50, thorough=None,
                 known=None, shrink=True):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.known = known          # optional: (case, exception) -> finding id
        self.shrink = shrink


# --------------------------------------------------------------------------
# environment


def ensure_deps():
    if not os.path.isdir(os.path.join(DEPS, "hypothesis")):
        tmp = DEPS + f".tmp{os.getpid()}"
        subprocess.run([sys.executable, "-m", "pip", "install", "-q", "--no-index",
                        "--find-links", WHEELS, "--no-warn-script-location",
                        "--disable-pip-version-check", "--target", tmp, "hypothesis"],
                       check=True, stdout=subprocess.DEVNULL)
        try:
            os.rename(tmp, DEPS)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    if DEPS not in sys.path:
        sys.path.append(DEPS)


_mods = {}


def prepare():
    """import the code under test from the working tree of /repo"""
    if _mods:
        return
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT", "1")
    os.environ.setdefault("OMPI_ALLOW_RUN_AS_ROOT_CONFIRM", "1")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    import bridge
    bridge.enable()
    import torch
    torch.set_num_threads(1)
    import mpi4py
    mpi4py.rc.initialize = False
    mpi4py.rc.finalize = False
    sys.path.insert(0, REPO)
    import yuca
    where = os.path.realpath(yuca.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f"yuca imported from {where}, not from {REPO}")
    _mods["torch"] = torch
    _mods["yuca"] = yuca


def reset_globals():
    """before every case: no state of an earlier case may matter"""
    import numpy as np
    import torch
    torch.set_default_dtype(torch.float32)
    torch.set_grad_enabled(True)
    torch.manual_seed(0)
    np.random.seed(0)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


class Scratch:
    """a scratch directory that is the cwd of the facet process"""

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix="yuca_verif_")
        self.old = os.getcwd()
        os.chdir(self.path)
        return self.path

    def __exit__(self, *exc):
        os.chdir(self.old)
        shutil.rmtree(self.path, ignore_errors=True)


# --------------------------------------------------------------------------
# one case


def in_repo(tb):
    root = os.path.realpath(REPO) + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


class CaseTimeout(Exception):
    """a case that takes a hundred times longer than the slowest usual one"""


CASE_LIMIT = 100
QUICK_FACTOR = 4        # quick counts of the facets are multiplied by this ...
SHARD = 40              # ... and split over processes of at least so many cases
MAX_SHARDS = 8
UNUSABLE = (TypeError, ValueError, LookupError, AttributeError, ArithmeticError, RuntimeError, OSError, EOFError)
OUR_TROUBLE = (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN, errno.EROFS, errno.EIO)


def _ring(signum, frame):
    raise CaseTimeout(f"no result within {CASE_LIMIT} s")


def decide(facet, case):
    """run a case; Violation if the property is broken, HarnessError if we are"""
    rec = Rec()
    reset_globals()
    signal.signal(signal.SIGALRM, _ring)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT, 5)
    try:
        with quiet():
            facet.fn(json.loads(json.dumps(case)), rec)
    except (Violation, HarnessError):
        raise
    except CaseTimeout as exc:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if in_repo(exc.__traceback__):
            raise Hang(f"a valid input does not come to an end: {exc}") from exc
        raise HarnessError(str(exc)) from exc
    except Exception as exc:  # noqa: BLE001
        text = "".join(traceback.format_exception_only(type(exc), exc)).strip()
        if in_repo(exc.__traceback__):
            raise Violation(f"raised on a valid input: {text}") from exc
        if isinstance(exc, UNUSABLE) and getattr(exc, "errno", None) not in OUR_TROUBLE:
            # the oracle stumbles over what the code returned or left behind: nothing,
            # another type or shape, a missing file
            where = traceback.extract_tb(exc.__traceback__)[-1]
            raise Violation(f"unusable result: {text} (at {os.path.basename(where.filename)}:"
                            f"{where.lineno} {where.line})") from exc
        raise HarnessError(f"{text}\n" + "".join(traceback.format_tb(exc.__traceback__))) from exc
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        reset_globals()
    return rec


def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    found = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                found.append(dict(part.split("=", 1) for part in line[8:].split(" what=")[0].split()
                                  if "=" in part) | {"what": line.split("what=", 1)[-1]})
    return found


# --------------------------------------------------------------------------
# a campaign: one facet in one process


def campaign(prop, facet, tier, seed, budget, shard=0, count=None):
    from hypothesis import given, settings, HealthCheck, Phase, Verbosity
    from hypothesis import seed as hseed
    import hypothesis.internal.conjecture.engine as engine
    if hasattr(engine, "MAX_SHRINKING_SECONDS"):
        engine.MAX_SHRINKING_SECONDS = 40 if tier == "quick" else 240

    if count is None:
        count = facet.quick if tier == "quick" else facet.thorough
    out = {"facet": facet.name, "planned": count, "evaluations": 0, "skipped": 0,
           "nontrivial": [], "samples": [], "labels": {}, "known": {}, "failure": None}
    nontrivial = set()
    state = {"fail": None, "phase": "generate", "history": [], "hang": False}
    findings = {f["id"]: f for f in known_findings(prop)}
    t0 = time.time()
    where = f"{prop}/{facet.name}/{seed}" + (f"/{shard}" if shard else "")
    mixed = int.from_bytes(hashlib.sha1(where.encode()).digest()[:6], "big")

    def body(case):
        if state["hang"]:           # not worth shrinking
            return
        if state["fail"] is None:
            if time.time() - t0 > budget:
                out["skipped"] += 1
                return
            state["history"].append(case)
            out["evaluations"] += 1
        try:
            rec = decide(facet, case)
        except Violation as exc:
            fid = facet.known(case, str(exc)) if facet.known else None
            if fid is not None and fid in findings:
                out["known"][fid] = findings[fid]["what"]
                return
            if state["fail"] is None:
                state["first"] = case
            state["fail"] = (case, str(exc))
            state["hang"] = isinstance(exc, Hang)
            raise
        if state["fail"] is None:
            for name in rec.labels:
                out["labels"][name] = out["labels"].get(name, 0) + 1
            if not rec.trivial:
                key = digest(case)
                if key not in nontrivial:
                    nontrivial.add(key)
                    if len(out["samples"]) < 2:
                        out["samples"].append({"facet": facet.name, "case": case})

    phases = [Phase.generate, Phase.shrink] if facet.shrink else [Phase.generate]
    test = settings(max_examples=count, deadline=None, database=None,
                    suppress_health_check=list(HealthCheck), phases=phases,
                    report_multiple_bugs=False, print_blob=False,
                    verbosity=Verbosity.quiet)(hseed(mixed)(given(facet.strategy)(body)))
    try:
        with quiet():
            test()
    except HarnessError:
        raise
    except BaseException as exc:  # noqa: BLE001
        if state["fail"] is None:
            raise HarnessError("".join(traceback.format_exception(type(exc), exc, exc.__traceback__)))
    out["nontrivial"] = sorted(nontrivial)
    if state["fail"] is not None:
        out["failure"] = {"case": state["fail"][0], "message": state["fail"][1],
                          "first": state["first"], "history": state["history"], "hang": state["hang"]}
    out["wall_s"] = time.time() - t0
    return out


def in_child(fn, limit):
    """run fn() in a forked process; returns (kind, value)"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)
            os.setpgid(0, 0)
            with open(os.devnull, "w") as null:
                os.dup2(null.fileno(), 1)
            try:
                with Scratch():
                    result = ("ok", fn())
            except HarnessError as exc:
                result = ("error", str(exc))
            except BaseException as exc:  # noqa: BLE001
                result = ("error", "".join(traceback.format_exception(type(exc), exc, exc.__traceback__)))
            with os.fdopen(w, "w") as f:
                json.dump(result, f)
        except BaseException:  # noqa: BLE001
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r, time.time() + limit


def run_pool(jobs, limit, width=None):
    """jobs: list of (key, fn); at most `width` at a time"""
    width = width or max(1, min(8, os.cpu_count() or 1))
    results, queue, running = {}, list(jobs), {}
    buffers = {}
    while queue or running:
        while queue and len(running) < width:
            key, fn = queue.pop(0)
            running[key] = in_child(fn, limit)
            buffers[key] = b""
        fds = {v[1]: k for k, v in running.items()}
        ready, _, _ = select.select(list(fds), [], [], 0.5)
        for fd in ready:
            key = fds[fd]
            data = os.read(fd, 1 << 20)
            if data:
                buffers[key] += data
                continue
            os.close(fd)
            _, status = os.waitpid(running[key][0], 0)
            try:
                results[key] = tuple(json.loads(buffers[key].decode()))
            except ValueError:
                results[key] = ("crash", f"facet process ended with status {status}")
            del running[key]
        for key in list(running):
            if time.time() > running[key][2]:
                pid, fd, _ = running[key]
                for kill in (os.killpg, os.kill):
                    with contextlib.suppress(OSError):
                        kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                results[key] = ("timeout", "facet process exceeded its time limit")
                del running[key]
    return results


def rerun(facet, cases):
    """decide a list of cases in order, in this process; message of the failure or None"""
    for case in cases:
        try:
            decide(facet, case)
        except Violation as exc:
            return str(exc)
    return None


def confirm(facet, failure, limit=200):
    """make the failure reproducible in a fresh process: the shrunk case alone, the
    first failing case alone, or the history of cases that led to it"""
    history = failure["history"]
    options = [[failure["case"]], [failure["first"]]]
    if len(history) > 1:
        options += [history[-2:], history[-8:], history]
    for cases in options:
        kind, value = run_pool([("c", lambda: rerun(facet, cases))], limit)["c"]
        if kind == "ok" and value is not None:
            return cases, value
    return None, None


def merged(parts):
    """the results of a facet's shards as one"""
    out = dict(parts[0])
    for key in ("planned", "evaluations", "skipped"):
        out[key] = sum(p[key] for p in parts)
    out["nontrivial"] = sorted(set().union(*[p["nontrivial"] for p in parts]))
    out["labels"] = {}
    for p in parts:
        for name, n in p["labels"].items():
            out["labels"][name] = out["labels"].get(name, 0) + n
    out["known"] = {k: v for p in parts for k, v in p["known"].items()}
    out["wall_s"] = max(p["wall_s"] for p in parts)
    failed = sorted([p for p in parts if p["failure"]],
                    key=lambda p: (p["failure"]["hang"], len(json.dumps(p["failure"]["case"]))))
    out["failure"] = failed[0]["failure"] if failed else None
    return out


def load_check(prop):
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    return importlib.import_module(prop)


def write_replay(prop, facet, cases, message, tier, seed):
    folder = os.path.join(VERIF, "replays")
    os.makedirs(folder, exist_ok=True)
    path = os.path.join(folder, f"{prop}_{facet}_{digest(cases)[:10]}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "facet": facet, "message": message, "tier": tier,
                   "seed": seed, "cases": cases,
                   "how": f"python run.py {prop} --replay {path}"}, f, indent=1)
    return path


def main(prop, argv):
    t0 = time.time()
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    only = argv[argv.index("--facet") + 1] if "--facet" in argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ensure_deps()
    with quiet():
        prepare()
        check = load_check(prop)
    facets = {f.name: f for f in check.FACETS}

    if replay:
        data = json.load(open(replay))
        facet = facets[data["facet"]]
        kind, value = run_pool([("r", lambda: rerun(facet, data["cases"]))], 800)["r"]
        if kind != "ok":
            print(f"replay failed to run: {value}")
            return 2
        if value is None:
            print(f"replay {replay}: property {prop} holds on this case")
            return 0
        print(f"{value}\nVIOLATION property={prop} replay={replay}")
        return 1

    chosen = [f for f in facets.values() if only in (None, f.name)]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for f in chosen:
        f.quick, f.thorough = max(1, int(f.quick * scale)), max(1, int(f.thorough * scale))
    budget = getattr(check, "BUDGET", 150) if tier == "quick" else 3000
    hard = 420 if tier == "quick" else 7200
    factor = getattr(check, "QUICK_FACTOR", QUICK_FACTOR) if tier == "quick" else 1
    jobs, shards = [], {}
    for f in chosen:
        count = int(factor * f.quick) if tier == "quick" else f.thorough
        shards[f.name] = n = max(1, min(MAX_SHARDS, count // SHARD))
        for k in range(n):
            part = count // n + (k < count % n)
            jobs.append(((f.name, k), (lambda f=f, k=k, part=part:
                                       campaign(prop, f, tier, seed, budget, k, part))))
    jobs.sort(key=lambda job: job[0][1])        # a shard of every facet first
    results = run_pool(jobs, hard)

    violations, errors, known = [], [], {}
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": getattr(check, "RULE", ""),
           "samples": [], "facets": {}}
    for f in chosen:
        parts = []
        for k in range(shards[f.name]):
            kind, value = results[f.name, k]
            if kind != "ok":
                errors.append((f.name, f"{kind}: {value}"))
            else:
                parts.append(value)
        if not parts:
            continue
        value = merged(parts)
        cov["evaluations"] += value["evaluations"]
        cov["distinct_nontrivial"] += len(value["nontrivial"])
        cov["samples"] += value["samples"]
        cov["facets"][f.name] = {"cases": value["evaluations"], "planned": value["planned"],
                                 "nontrivial": len(value["nontrivial"]),
                                 "skipped_for_time": value["skipped"],
                                 "labels": dict(sorted(value["labels"].items())),
                                 "wall_s": round(value["wall_s"], 2)}
        known.update(value["known"])
        if value["failure"] and value["failure"]["hang"] and violations:
            print(f"{f.name}: {value['failure']['message']} (not confirmed in a fresh process)")
        elif value["failure"]:
            cases, message = confirm(f, value["failure"])
            if cases is None:
                errors.append((f.name, "failure did not reproduce: " + value["failure"]["message"]
                               + " case " + json.dumps(value["failure"]["case"])[:600]))
            else:
                violations.append((f.name, message, write_replay(prop, f.name, cases, message, tier, seed)))

    evidence = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
                "coverage": cov, "assumptions": list(getattr(check, "ASSUMPTIONS", [])),
                "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    for fid, what in sorted(known.items()):
        print(f"KNOWN-FINDING: property={prop} {fid}: {what}")
    for name, message in errors:
        print(f"check error in {prop}/{name}: {message}", file=sys.stderr)
    for name, message, path in violations:
        print(f"{prop}/{name}: {message}"[:1500])
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} {tier}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, "
          f"{len(violations)} violations, {len(errors)} errors, {time.time() - t0:.1f} s")
    if violations:
        return 1
    return 2 if errors else 0
