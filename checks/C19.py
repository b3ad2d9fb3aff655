"""C19: fitness purity, work distribution among workers."""
import copy
import inspect

import numpy as np
import torch
from hypothesis import strategies as st

import evo
import gen
from harness import Facet, expect

RULE = ("random environments, CA classes, populations, worker counts and orders of evaluation; "
        "non-trivial when the population's fitness values differ")
QUICK_FACTOR = 1
ASSUMPTIONS = ["worker processes are simulated in process, with a stand-in for the MPI communicator "
               "which hands each message over as a deep copy and keeps the workers' random state apart"]


def make(case, **kw):
    from yuca.cmaes import CMAES, CMACES
    from yuca.cppn import CPPN, CPPNPlus
    gen.set_dtype(dict(case, cls="CCA"))
    env = evo.wrappers()[case["env"]]
    args = dict(population_size=case["size"], env_fn=env, ca_fn=gen.classes()[case["cls"]],
                kernel_radius=2, kernel_peaks=1, dim=case["dim"], ca_steps=case["steps"],
                batch_size=case["batch"], replicates=case["replicates"],
                generations=case.get("generations", 1), prediction_mode=case["pmode"], tag="verif",
                seed=list(case.get("seeds", [case["seed"]])), hidden_channels=3)
    cls = CMAES
    if case["env"] == "GliderWrapper":
        args["batch_size"] = 1
        if case["coevo"]:
            cls, args["agent_fn"], args["tag"] = CMACES, CPPNPlus, "verif_coevo"
        else:
            args["agent_fn"], args["tag"] = CPPN, "verif_pattern"
        if case["cls"] == "RxnDfn":
            args["external_channels"] = 2
    args.update(kw)
    if case["later"]:                       # the environment's number of steps set afterwards
        del args["ca_steps"]
    es = cls(**args)
    if case["later"]:
        es.env.ca_steps = case["steps"]
    if case["cls"] in ("CCA", "Lenia", "MetaCA", "NCA"):
        es.env.ca.set_dt(case["dt"])
    if case["env"] == "GliderWrapper":      # many parameters: spare the decompositions
        es.sample_distribution = lambda: es.means + 0.3 * np.random.randn(*es.means.shape)
    return es


def scale_rules(es, case):
    """individuals with visibly different rules, some of which let some grids survive"""
    rng = np.random.RandomState(case["rng"])
    for agent in es.population:
        agent.set_params(rule(np.array(agent.get_params(), float), case, rng))


def rule(v, case, rng):
    new = v * (0.6 + 0.8 * rng.rand(*v.shape))
    if case["cls"] in ("CCA", "Lenia", "MetaCA", "CODE", "RandomStepCA") and case["env"] != "GliderWrapper":
        n = 2 if case["cls"] == "Lenia" else 4
        new[:n] = np.array([0.12, 0.03, 0.12, 0.03][:n]) * (0.7 + 1.3 * rng.rand(n))
    return new


def value(result):
    return float(result[0]), float(result[1])


def purity(case, rec):
    es = make(case)
    np.random.seed(case["rng"])
    torch.manual_seed(case["rng"])
    es.reset()
    scale_rules(es, case)
    n = case["size"]
    kw = dict(steps=1, replicates=case["replicates"], seed=case["seed"])
    vectors = [np.array(a.get_params(), float).copy() for a in es.population]
    base = [value(es.get_fitness(i, **kw)) for i in range(n)]
    for i, v in enumerate(vectors):
        expect(np.array_equal(np.array(es.population[i].get_params(), float), v),
               f"evaluating changed the parameters of individual {i}")
    for what, i in case["plan"]:
        i %= n
        if what == "again":
            expect(value(es.get_fitness(i, **kw)) == base[i],
                   f"fitness of individual {i} differs when evaluated again after others")
        elif what == "elsewhere":
            j = (i + 1) % n
            keep = np.array(es.population[j].get_params(), float).copy()
            es.population[j].set_params(vectors[i].copy())
            got = value(es.get_fitness(j, **kw))
            es.population[j].set_params(keep)
            expect(got == base[i], f"the same parameters score {got} at index {j}, {base[i]} at index {i}")
        elif what == "alone":
            other = make(case)
            np.random.seed(case["rng"] + 1)
            other.reset()
            other.population[i].set_params(vectors[i].copy())
            got = value(other.get_fitness(i, **kw))
            expect(got == base[i], f"individual {i} scores {got} in a fresh process, {base[i]} after others")
        elif what == "elites":              # what a search does between generations
            es.elite_params = np.stack([vectors[i], vectors[(i + 1) % n]])
            es.get_elite_configs()
            expect(value(es.get_fitness(i, **kw)) == base[i],
                   f"fitness of individual {i} differs after elite configurations were made")
        elif what == "seed":
            es.get_fitness(i, steps=1, replicates=case["replicates"], seed=case["seed"] + 1)
        elif what == "noise":
            np.random.rand(3)
            torch.rand(3)
            expect(value(es.get_fitness(i, **kw)) == base[i], "fitness depends on earlier random draws")
    rec.label(case["env"], case["cls"], f"replicates{case['replicates']}")
    if len(set(b[0] for b in base)) < 2:
        rec.mark_trivial()


def replicated(case, rec):
    """several replicates: the mean over successive evaluations from the one seed"""
    es = make(case)
    np.random.seed(case["rng"])
    es.reset()
    scale_rules(es, case)
    rewards, alive, inner = [], [], es.env.step

    def step(action):
        out = inner(action)
        rewards.append(float(out[1]))
        alive.append(float(out[3]["active_grid"]))
        return out
    es.env.step = step
    n = case["replicates"]
    what = f"{n} replicates of {case['steps_per']} steps"
    kw = dict(steps=case["steps_per"], replicates=n, seed=case["seed"])
    got = value(es.get_fitness(0, **kw))
    expect(len(rewards) == n * case["steps_per"], f"{what}: the environment was stepped {len(rewards)} times")
    expect(abs(got[0] - np.mean(rewards)) <= 1e-5 * (1 + np.abs(rewards).max()),
           f"{what}: fitness {got[0]} is not the mean of the rewards {rewards}")
    expect(abs(got[1] - np.mean(alive)) <= 1e-5, f"{what}: activity {got[1]} is not the mean of {alive}")
    first = list(rewards)
    again = value(es.get_fitness(0, **kw))
    expect(got == again and rewards[len(first):] == first, f"{what}: not reproducible")
    # the replicates use successive draws: the first one is that of a single evaluation
    del rewards[:]
    one = value(es.get_fitness(0, **dict(kw, replicates=1)))
    expect(rewards == first[:case["steps_per"]], f"{what}: the first replicate differs from a single evaluation")
    if len(set(first)) < 2:
        rec.mark_trivial()
    rec.label(f"replicates{n}", case["env"])


# ---------------------------------------------------------------------------


class Comm:
    """in-process communicator: when the parent waits for a worker, that worker's loop
    runs until its queue is empty"""

    def __init__(self, workers, make_worker):
        self.workers, self.make_worker = workers, make_worker
        self.inbox = {w: [] for w in range(workers)}
        self.sent, self.answers, self.stops = [], {}, []
        self.role, self.machines = 0, {}

    def Get_size(self):
        return self.workers

    def Get_rank(self):
        return self.role

    def send(self, obj, dest=None, tag=0):
        obj = copy.deepcopy(obj)
        if self.role == 0:
            expect(dest in self.inbox and dest != 0, f"the parent sent a message to rank {dest}")
            self.sent.append((dest, obj))
            self.inbox[dest].append(obj)
        else:
            expect(dest == 0, f"a worker sent a message to rank {dest}")
            self.answers.setdefault(self.role, []).append(obj)

    def recv(self, source=None, tag=0):
        if self.role:
            return self.inbox[self.role].pop(0) if self.inbox[self.role] else (0, 0, 0)
        if not self.answers.get(source):
            self.run(source)
        expect(self.answers.get(source), f"the parent waits for worker {source}, which has nothing to do")
        return self.answers[source].pop(0)

    def run(self, rank):
        import yuca.cmaes
        state = np.random.get_state(), torch.get_rng_state()
        self.role, old = rank, getattr(yuca.cmaes, "rank", None)
        yuca.cmaes.rank = rank
        try:
            np.random.seed(rank)
            if rank not in self.machines:
                self.machines[rank] = self.make_worker()
            self.machines[rank].arm()
        finally:
            self.role = 0
            yuca.cmaes.rank = old
            np.random.set_state(state[0])
            torch.set_rng_state(state[1])


def progress(find, es, seed):
    saved = find("logs", f"{es.exp_id}_seed{seed}")
    expect(len(saved) == 1, f"logs written: {saved}")
    return np.load(saved[0], allow_pickle=True).reshape(1)[0]


FIELDS = ["mean_fitness", "max_fitness", "min_fitness", "std_dev_fitness"]


def workers(case, rec):
    import yuca.cmaes
    import os
    old = yuca.cmaes.comm
    names = {n: getattr(yuca.cmaes, n, None) for n in ("rank", "num_worker")}
    w = case["workers"]
    os.makedirs("logs", exist_ok=True)
    scores = {}
    try:
        with evo.contained() as find, evo.no_gifs():
            def spread(es):
                """a starting distribution under which grids of some individuals survive"""
                rng = np.random.RandomState(case["rng"])
                v = np.array(es.starting_means, float)
                es.starting_means = rule(v, case, rng)
                es.starting_covar = np.diag((0.3 * np.abs(es.starting_means)) ** 2)
                return es

            def spying(es, key):
                inner = es.get_fitness
                sig = inspect.signature(inner)

                def wrapped(*a, **k):
                    args = sig.bind(*a, **k).arguments
                    result = inner(*a, **k)
                    i = args["agent_index"]
                    scores.setdefault(key, []).append(
                        (i, value(result), tuple(np.ravel(es.population[i].get_params())), args.get("seed")))
                    return result
                es.get_fitness = wrapped
                return es

            def ranked(es, key):
                """the fitness values each generation is ranked by, with the population they belong to"""
                def wrap(inner):
                    def wrapped(fitness, *a, **k):
                        scores.setdefault(key + "_ranked", []).append(
                            ([float(f) for f in fitness],
                             [tuple(np.ravel(x.get_params())) for x in es.population]))
                        return inner(fitness, *a, **k)
                    return wrapped
                es.rank_population = wrap(es.rank_population)
                es.update_population = wrap(es.update_population)
                return es

            serial = ranked(spying(spread(make(case, workers=0)), "serial"), "serial")
            serial.exp_id = "verif_serial"
            serial.mantle()
            logs0 = [progress(find, serial, k) for k in case["seeds"]]

            comm = Comm(w, lambda: spying(make(case, workers=w), "parallel"))
            yuca.cmaes.comm = comm
            yuca.cmaes.num_worker, yuca.cmaes.rank = w, 0
            parallel = ranked(spread(make(case, workers=w)), "parallel")
            parallel.exp_id = "verif_parallel"
            parallel.mantle()
            logs1 = [progress(find, parallel, k) for k in case["seeds"]]
    finally:
        yuca.cmaes.comm = old
        for n, v in names.items():
            if v is None:
                if hasattr(yuca.cmaes, n):
                    delattr(yuca.cmaes, n)
            else:
                setattr(yuca.cmaes, n, v)
    n = case["size"]
    total = len(scores["serial"])
    expect(total == len(scores["parallel"]), f"{len(scores['parallel'])} evaluations by workers, {total} serially")
    expect(total == n * len(case["seeds"]) * case["generations"], f"{total} evaluations of a population of {n}")
    varied = False
    gen.set_dtype(dict(case, cls="CCA"))
    again = spread(make(case, workers=0))
    again.reset()
    for g in range(0, total, n):
        where = f"generation {g // n % case['generations']} of seeds {case['seeds']}"
        by_index = {i: v for i, v, _, _ in scores["serial"][g:g + n]}
        seed = scores["serial"][g][3]
        part = scores["parallel"][g:g + n]
        got = sorted(i for i, *_ in part)
        expect(sorted(by_index) == got and got == list(range(n)),
               f"{w - 1} workers evaluated individuals {got} of {n} in {where}")
        fitness, population = scores["parallel_ranked"][g // n]
        for i, v, p, _ in part:
            expect(p == population[i], f"a worker evaluated individual {i} with other parameters in {where}")
            again.population[0].set_params(np.array(p))
            want = value(again.get_fitness(0, steps=1, replicates=case["replicates"], seed=seed))
            expect(v == want, f"a worker scores individual {i} {v}, serial evaluation {want} in {where}")
            if g == 0:      # afterwards the parent draws from another random state
                expect(v == by_index[i], f"a worker scores individual {i} {v}, the serial search {by_index[i]} in {where}")
        values = {i: v[0] for i, v, _, _ in part}
        expect(fitness == [values[i] for i in range(n)], f"fitness values do not come back in population order in {where}")
        varied = varied or len(set(by_index.values())) > 1
    for key, logs in (("serial", logs0), ("parallel", logs1)):
        ranking = iter(scores[key + "_ranked"])
        for seed, log in zip(case["seeds"], logs):
            expect(len(log["mean_fitness"]) == case["generations"],
                   f"{len(log['mean_fitness'])} generations in the log of {key} seed {seed}")
            for j in range(case["generations"]):
                f = next(ranking)[0]
                for field, fn in zip(FIELDS, (np.mean, np.max, np.min, np.std)):
                    expect(abs(log[field][j] - fn(f)) <= 1e-6,
                           f"{field} of {key} seed {seed} generation {j} is {log[field][j]}, not {fn(f)}")
    stops = [d for d, m in comm.sent if isinstance(m[0], int) and m[0] == 0]
    expect(sorted(stops) == list(range(1, w)), f"shutdown messages went to {sorted(stops)} of workers 1..{w - 1}")
    last = comm.sent[-(w - 1):]
    expect(all(isinstance(m[0], int) for _, m in last), "work was sent after a shutdown message")
    rec.label(f"workers{w}", f"n{n}", case["env"], f"evaluations{total}")
    if not varied:
        rec.mark_trivial()


PLANS = ["again", "elsewhere", "elsewhere", "alone", "seed", "noise", "elites"]


@st.composite
def cases(draw, envs, classes=("CCA", "CCA", "CCA", "Lenia", "Lenia", "RxnDfn", "CODE", "MetaCA", "RandomStepCA", "RandomStepCA", "NCA")):
    env = draw(st.sampled_from(envs))
    return {"env": env, "cls": draw(st.sampled_from(classes)), "dtype": "f32",
            "size": draw(st.integers(2, 6)), "dt": draw(st.sampled_from([0.3, 0.6, 1.0])), "dim": 16 if env == "HaltingWrapper" else draw(st.integers(8, 14)),
            "steps": draw(st.integers(2, 8)) if env == "HaltingWrapper" else draw(st.one_of(st.integers(1, 3), st.integers(4, 26), st.integers(4, 26))), "batch": draw(st.integers(2, 9)),
            "replicates": draw(st.integers(1, 2 if env == "HaltingWrapper" else 5)), "steps_per": draw(st.sampled_from([1, 1, 2, 3])), "pmode": draw(st.integers(0, 2)),
            "seed": draw(st.integers(0, 500)), "rng": draw(st.integers(0, 500)),
            "coevo": draw(st.booleans()), "later": draw(st.booleans()),
            "plan": draw(st.lists(st.tuples(st.sampled_from(PLANS), st.integers(0, 5)).map(list),
                                  min_size=2, max_size=6))}


@st.composite
def parallel(draw):
    case = draw(cases(["SimpleHaltingWrapper"], classes=("CCA", "Lenia", "MetaCA", "CODE")))
    case.update(size=draw(st.integers(2, 15)), workers=draw(st.integers(2, 7)), steps=draw(st.integers(5, 20)),
                batch=draw(st.integers(5, 9)), generations=draw(st.sampled_from([1, 2, 2, 3])),
                seeds=draw(st.lists(st.integers(0, 99), min_size=1, max_size=3, unique=True)),
                replicates=draw(st.integers(1, 2)))
    return case


FACETS = [
    Facet("halting", cases(["SimpleHaltingWrapper"]), purity, 120, 2000),
    Facet("predictive", cases(["HaltingWrapper"]), purity, 10, 200),
    Facet("glider", cases(["GliderWrapper"]), purity, 60, 1000),
    Facet("replicates", cases(["SimpleHaltingWrapper", "SimpleHaltingWrapper", "GliderWrapper"]), replicated, 80, 1000),
    Facet("workers", parallel(), workers, 12, 300),
    Facet("workers2", parallel(), workers, 12, 300),
]
