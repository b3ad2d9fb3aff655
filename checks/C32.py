"""C32: the evolution entry point with recording stand-ins for the search classes."""
import contextlib
import os
import runpy
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import evo
import gen
from harness import Facet, Violation, expect

RULE = ("histories of experiments (tag, CA and environment names, precision, options) and command lines, run against "
        "recording stand-ins, and small experiments run for real; non-trivial when an option or name other than the "
        "default is given")
ASSUMPTIONS = ["a tag with both 'pattern' and 'coevo' means pattern search", "CA and environment names as documented"]

CAS = ["CCA", "NCA", "RxnDfn", "MetaCA", "CODE", "Lenia", "RandomStepCA"]
ENVS = ["SimpleHaltingWrapper", "HaltingWrapper", "RandomWrapper"]
# set by the dispatch itself
OWN = {"agent_fn", "env_fn", "ca_fn"}


class Log(list):
    pass


@contextlib.contextmanager
def stand_ins(log):
    """record which search is made and started, with what, under which precision"""
    import torch
    import yuca.cmaes
    import yuca.evolve

    def make(name):
        class StandIn:
            def __init__(self, *args, **kwargs):
                expect(not args, "a search made with positional arguments")
                self.kwargs = kwargs
                log.append(("made", name, kwargs, torch.get_default_dtype()))

            def search(self, *args, **kwargs):
                log.append(("search", name, self.kwargs, torch.get_default_dtype()))
        return StandIn

    spots = [(m, n) for m in (yuca.cmaes, yuca.evolve) for n in ("CMAES", "CMACES") if hasattr(m, n)]
    old = [getattr(m, n) for m, n in spots]
    fakes = {n: make(n) for n in ("CMAES", "CMACES")}
    for m, n in spots:
        setattr(m, n, fakes[n])
    try:
        yield
    finally:
        for (m, n), v in zip(spots, old):
            setattr(m, n, v)


def agents():
    from yuca.cppn import CPPN, CPPNPlus
    from yuca.wrappers.random_wrapper import RandomWrapper
    return {"CPPN": CPPN, "CPPNPlus": CPPNPlus}, dict(evo.wrappers(), RandomWrapper=RandomWrapper)


def judge(log, given, what):
    """one experiment's record against what was asked for"""
    import torch
    expect([e[0] for e in log] == ["made", "search"], f"{what}: {[e[:2] for e in log]} instead of one search")
    _, name, kwargs, at_make = log[0]
    cppns, envs = agents()
    kind = "pattern" if "pattern" in given["tag"] else "coevo" if "coevo" in given["tag"] else "rules"
    expect(name == ("CMACES" if kind == "coevo" else "CMAES"), f"{what}: a {kind} search made with {name}")
    want_env = envs[given["env_fn"]] if kind == "rules" else envs["GliderWrapper"]
    expect(kwargs.get("env_fn") is want_env, f"{what}: environment {kwargs.get('env_fn')}, not {want_env}")
    agent = {"pattern": cppns["CPPN"], "coevo": cppns["CPPNPlus"], "rules": None}[kind]
    if agent is None:
        from yuca.params_agent import ParamsAgent
        expect(kwargs.get("agent_fn", ParamsAgent) is ParamsAgent, f"{what}: agents {kwargs.get('agent_fn')}")
    else:
        expect(kwargs.get("agent_fn") is agent, f"{what}: agents {kwargs.get('agent_fn')}, not {agent}")
    ca = gen.classes()[given["ca_fn"]]
    expect(kwargs.get("ca_fn") is ca, f"{what}: CA {kwargs.get('ca_fn')}, not {ca}")
    if given["ca_fn"] == "RxnDfn":
        expect(kwargs.get("external_channels") == 2, f"{what}: {kwargs.get('external_channels')} channels")
    elif "external_channels" not in given:
        expect("external_channels" not in kwargs, f"{what}: external_channels {kwargs.get('external_channels')}")
    for key, value in given.items():
        if key in OWN or (key == "external_channels" and given["ca_fn"] == "RxnDfn"):
            continue
        expect(key in kwargs and type(kwargs[key]) is type(value) and kwargs[key] == value,
               f"{what}: option {key} reached the search as {kwargs.get(key)!r}, not {value!r}")
    extra = set(kwargs) - set(given) - OWN - {"external_channels"}
    allowed = {"hidden_channels"} if given["ca_fn"] == "NCA" else set()
    expect(extra <= allowed, f"{what}: options that nobody gave: {extra}")
    if extra:
        expect(type(kwargs["hidden_channels"]) is int and kwargs["hidden_channels"] > 0, f"{what}: hidden channels")
    dtype = torch.float64 if "float64" in given["dtype"] else torch.float32
    expect(at_make == dtype and log[1][3] == dtype, f"{what}: searched in {at_make}, not {dtype}")


def dispatch(case, rec):
    import torch
    import yuca.evolve
    for n, exp in enumerate(case["experiments"]):
        given = {k: v for k, v in exp.items() if k not in ("unknown", "prior")}
        torch.set_default_dtype({"f32": torch.float32, "f64": torch.float64}[exp["prior"]])
        what = f"experiment {n} ({given['tag']}, {given['ca_fn']}, {given['env_fn']}, {given['dtype']})"
        log = Log()
        keep = {k: list(v) if isinstance(v, list) else v for k, v in given.items()}
        with stand_ins(log):
            if exp["unknown"]:
                bad = dict(given, **{exp["unknown"]: "Unheard"})
                rules = "pattern" not in bad["tag"] and "coevo" not in bad["tag"]
                if exp["unknown"] == "env_fn" and not rules:
                    continue
                try:
                    yuca.evolve.evolve(**bad)
                except Exception:  # noqa: BLE001
                    pass
                else:
                    raise Violation(f"{what}: an unknown {exp['unknown']} was accepted")
                expect(not [e for e in log if e[0] == "search"], f"{what}: a search with an unknown name was started")
                rec.label(f"unknown {exp['unknown']}")
                continue
            yuca.evolve.evolve(**given)
        expect(given == keep, f"{what}: the caller's options were changed")
        judge(log, given, what)
        rec.label(given["ca_fn"], given["env_fn"], given["dtype"])


# the command line -------------------------------------------------------------

FLAGS = {        # documented options: short, long, destination, kind
    "activation": ("-a", "--activation", st.sampled_from(["ReLU", "SiLU", "Tanh", "Gaussian"])),
    "batch_size": ("-b", "--batch_size", st.integers(1, 99)),
    "ca_steps": ("-c", "--ca_steps", st.integers(1, 2000)),
    "ca_fn": ("-ca", "--ca_fn", st.sampled_from(CAS)),
    "ca_config": ("-cc", "--ca_config", st.sampled_from(["orbium.npy", "ca_configs/geminium.npy", "my-rules/a-1.npy"])),
    "internal_channels": ("-ch", "--internal_channels", st.integers(1, 9)),
    "device": ("-d", "--device", st.sampled_from(["cpu", "cuda:1"])),
    "dt": ("-dt", "--dt", gen.num(0.01, 1.0)),
    "dtype": ("-dtype", "--dtype", st.sampled_from(["float32", "float64", "torch.float64"])),
    "selection_mode": ("-e", "--selection_mode", st.integers(0, 2)),
    "env_fn": ("-f", "--env_fn", st.sampled_from(ENVS)),
    "generations": ("-g", "--generations", st.integers(1, 99)),
    "hidden_channels": ("-hc", "--hidden_channels", st.integers(1, 300)),
    "input_filepath": ("-i", "--input_filepath", st.sampled_from(["logs/some.npy", "logs/run-3.npy"])),
    "kernel_radius": ("-k", "--kernel_radius", st.integers(1, 40)),
    "kernel_peaks": ("-kp", "--kernel_peaks", st.integers(1, 9)),
    "replicates": ("-l", "--replicates", st.integers(1, 9)),
    "dim": ("-m", "--dim", st.integers(8, 300)),
    "population_size": ("-p", "--population_size", st.integers(1, 200)),
    "prediction_mode": ("-r", "--prediction_mode", st.integers(0, 2)),
    "seed": ("-s", "--seed", st.lists(st.integers(0, 10 ** 6), min_size=1, max_size=4)),
    "tag": ("-t", "--tag", st.sampled_from(["orbium_pattern_search", "my_coevo", "rules_7", "geminium", "coevo-7", "a-pattern"])),
    "conv_mode": ("-v", "--conv_mode", st.sampled_from(["circular", "reflect", "zeros"])),
    "workers": ("-w", "--workers", st.integers(0, 8)),
    "external_channels": ("-x", "--external_channels", st.integers(1, 9)),
}
DEFAULTS = {"batch_size": 64, "ca_steps": 1024, "ca_config": None, "device": "cpu", "dtype": "float32",
            "selection_mode": 0, "env_fn": "HaltingWrapper", "generations": 32, "input_filepath": None,
            "kernel_radius": 13, "replicates": 1, "dim": 128, "population_size": 32, "prediction_mode": 0,
            "seed": 13, "tag": "pattern_search", "conv_mode": "circular", "ca_fn": "CCA"}


def repository():
    """a small git repository as the working directory"""
    root = os.path.join(os.getcwd(), "work")
    if not os.path.isdir(os.path.join(root, ".git")):
        env = dict(os.environ, GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_NOSYSTEM="1")
        for command in (["git", "init", "-q", root],
                        ["git", "-C", root, "-c", "user.name=v", "-c", "user.email=v@v", "commit", "-q",
                         "--allow-empty", "-m", "x"]):
            subprocess.run(command, check=True, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    head = subprocess.run(["git", "-C", root, "rev-parse", "HEAD"], check=True, capture_output=True, text=True)
    return root, head.stdout.strip()


def grouped(words):
    """options with their values"""
    spellings = [f for flags in FLAGS.values() for f in flags[:2]]
    out, at = {}, None
    for w in map(str, words):
        if w in spellings:
            at = w
        out.setdefault(at, [])
        if w != at:
            out[at].append(w)
    return out


def command(case, rec):
    root, head = repository()
    words = []
    for name, long_form in case["order"]:
        value = case["options"][name]
        words.append(FLAGS[name][1 if long_form else 0])
        words += [str(v) for v in value] if isinstance(value, list) else [str(value)]
    log = Log()
    cwd, argv = os.getcwd(), sys.argv
    module = sys.modules.pop("yuca.evolve", None)
    try:
        os.chdir(root)
        with stand_ins(log):
            sys.modules.pop("yuca.evolve", None)
            sys.argv = ["evolve.py"] + words
            runpy.run_module("yuca.evolve", run_name="__main__", alter_sys=False)
    except SystemExit as exc:
        raise Violation(f"the command line {words} was refused") from exc
    finally:
        sys.argv = argv
        os.chdir(cwd)
        if module is not None:
            sys.modules["yuca.evolve"] = module
    given = dict(DEFAULTS)
    given.update(case["options"])
    what = f"command line {words}"
    expect([e[0] for e in log] == ["made", "search"], f"{what}: {[e[:2] for e in log]} instead of one search")
    kwargs = dict(log[0][2])
    for key in ("activation", "internal_channels", "dt", "hidden_channels", "kernel_peaks", "workers",
                "external_channels"):
        given.setdefault(key, kwargs.get(key))      # undocumented defaults
    expect(str(kwargs.pop("git_hash", head)).strip() == head, f"{what}: commit recorded as {log[0][2].get('git_hash')}")
    entry = kwargs.pop("entry_point", None)
    if entry is not None:
        flat = [w for part in entry for w in (part if isinstance(part, (list, tuple)) else [part])]
        expect(sorted(map(str, flat)) == sorted(["evolve.py"] + words), f"{what}: recorded as {entry}")
        expect(grouped(flat) == grouped(["evolve.py"] + words), f"{what}: recorded as {entry}, which is another command")
    judge([("made", log[0][1], kwargs, log[0][3]), ("search", log[1][1], kwargs, log[1][3])], given, what)
    rec.label(*[n for n, _ in case["order"]][:6])
    if not words:
        rec.mark_trivial()


# small experiments for real -----------------------------------------------------


def run(case, rec):
    import torch
    import yuca.cmaes
    import yuca.evolve
    given = dict(case["given"])
    kind = "pattern" if "pattern" in given["tag"] else "coevo" if "coevo" in given["tag"] else "rules"
    started = []
    with evo.contained() as find, evo.no_gifs():
        old = yuca.cmaes.CMAES.search

        def search(self, *a, **k):
            started.append((type(self).__name__, type(self.env).__name__, type(self.env.ca).__name__,
                            self.env.ca.external_channels, torch.get_default_dtype()))
            if np.size(self.starting_means) > 300:       # spare the decomposition of a huge covariance
                self.sample_distribution = lambda: self.means + 0.3 * np.random.randn(*np.shape(self.means))
            return old(self, *a, **k)
        yuca.cmaes.CMAES.search = search
        try:
            yuca.evolve.evolve(**given)
        finally:
            yuca.cmaes.CMAES.search = old
        logs = [f for f in find("logs", given["tag"])]
        expect(len(logs) == len(given["seed"]), f"log files {logs} of {len(given['seed'])} runs")
        for f in logs:
            data = np.load(f, allow_pickle=True).reshape(1)[0]
            hits = [k for k in data if k in ("elite_params", "elite_fitness", "mean_fitness", "max_fitness")]
            expect(len(hits) > 0, f"a log without results: {sorted(data)}")
    env = given["env_fn"] if kind == "rules" else "GliderWrapper"
    channels = 2 if given["ca_fn"] == "RxnDfn" else given["external_channels"]
    want = ("CMACES" if kind == "coevo" else "CMAES", env, given["ca_fn"], channels,
            torch.float64 if "64" in given["dtype"] else torch.float32)
    expect(started == [want], f"ran {started} instead of {want}")
    rec.label(kind, given["ca_fn"], env)


TAGS = {"pattern": st.sampled_from(["pattern_search", "orbium_pattern", "a_pattern_b", "coevo_pattern", "pattern_coevo"]),
        "coevo": st.sampled_from(["coevo", "my_coevolution", "x_coevo_1"]),
        "rules": st.sampled_from(["rules", "my_geminium_tag", "orbium", "", "co_evo", "pat_tern"])}


@st.composite
def experiment(draw):
    kind = draw(st.sampled_from(["pattern", "coevo", "rules", "rules"]))
    options = {
        "tag": draw(TAGS[kind]), "ca_fn": draw(st.sampled_from(CAS)), "env_fn": draw(st.sampled_from(ENVS)),
        "dtype": draw(st.sampled_from(["float32", "float64", "torch.float32", "torch.float64"])),
        "unknown": draw(st.sampled_from([None, None, None, None, "ca_fn", "env_fn"])),
        "prior": draw(st.sampled_from(["f32", "f64"]))}
    names = draw(st.lists(st.sampled_from(sorted(set(FLAGS) - {"tag", "ca_fn", "env_fn", "dtype"})), unique=True,
                          max_size=8))
    for n in names:
        options[n] = draw(FLAGS[n][2])
    if draw(st.booleans()):
        options["note"] = "anything"
    return options


@st.composite
def lines(draw):
    names = draw(st.lists(st.sampled_from(sorted(FLAGS)), unique=True, max_size=9))
    order = [(n, draw(st.booleans())) for n in names]
    return {"options": {n: draw(FLAGS[n][2]) for n in names}, "order": [list(o) for o in order]}


@st.composite
def small(draw):
    kind = draw(st.sampled_from(["pattern", "coevo", "rules", "rules"]))
    ca = draw(st.sampled_from(CAS))
    channels = draw(st.sampled_from([1, 1, 2]))
    given = {"tag": "verif_" + {"pattern": "pattern", "coevo": "coevo", "rules": "x"}[kind], "ca_fn": ca,
             "env_fn": draw(st.sampled_from(ENVS)),
             "dtype": draw(st.sampled_from(["float32", "float64"])),
             "population_size": draw(st.integers(2, 4)), "generations": draw(st.integers(1, 2)),
             "ca_steps": draw(st.integers(1, 3)), "dim": draw(st.sampled_from([16, 17, 20])),
             "batch_size": 1, "replicates": 1, "kernel_radius": draw(st.integers(1, 3)),
             "kernel_peaks": draw(st.integers(1, 3)), "hidden_channels": draw(st.integers(1, 6)),
             "internal_channels": channels, "external_channels": channels, "seed": draw(st.lists(
                 st.integers(0, 99), min_size=1, max_size=2, unique=True)),
             "selection_mode": draw(st.integers(0, 2)), "prediction_mode": draw(st.integers(0, 2)),
             "conv_mode": "circular", "device": "cpu", "ca_config": None, "input_filepath": None, "workers": 0}
    return {"given": given}


FACETS = [
    Facet("dispatch", st.fixed_dictionaries({"experiments": st.lists(experiment(), min_size=1, max_size=4)}),
          dispatch, 500, 5000),
    Facet("command", lines(), command, 250, 3000),
    Facet("run", small(), run, 50, 500),
]
