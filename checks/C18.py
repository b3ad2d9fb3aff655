"""C18: selection, refit and refill of the evolution strategy against a model."""
import numpy as np
from hypothesis import strategies as st

import evo
import gen
from harness import Facet, expect

RULE = ("random population size, rule class, fitness values (with ties and equal values) and histories "
        "of generations; non-trivial when the elites are not the first individuals anyway")
QUICK_FACTOR = 2
ASSUMPTIONS = ["draws are judged by deterministic consequences (span of the elites about the old mean) "
               "and by tests whose chance of failing a correct program is below 1e-8"]


def make(case, **kw):
    from yuca.cmaes import CMAES
    evo.wrappers()
    gen.set_dtype(dict(case, cls="CCA"))
    args = dict(population_size=case["size"], selection_mode=case["mode"],
                env_fn=evo.wrappers()["SimpleHaltingWrapper"], ca_fn=gen.classes()[case["cls"]],
                kernel_radius=2, kernel_peaks=case["peaks"], dim=8, ca_steps=2, batch_size=2,
                tag="verif", seed=[3])
    args.update(kw)
    cls = CMAES
    if case.get("agent"):
        from yuca.cmaes import CMACES
        from yuca.cppn import CPPN, CPPNPlus
        cls, agent, tag = {"CPPN": (CMAES, CPPN, "verif_pattern"),
                           "CPPNPlus": (CMACES, CPPNPlus, "verif_coevo")}[case["agent"]]
        args.update(agent_fn=agent, tag=tag, env_fn=evo.wrappers()["GliderWrapper"], dim=9, batch_size=1)
        if case["cls"] == "RxnDfn":
            args["external_channels"] = 2
    es = cls(**args)
    if case.get("agent"):       # over a thousand parameters: spare the decomposition
        es.sample_distribution = lambda: es.means + np.random.randn(*np.shape(es.means))
    np.random.seed(case["rng"])
    es.reset()
    return es


def elites_ok(es, old, fitness, mode, what):
    n = len(fitness)
    k = n // 8 + 1
    elites = np.array(es.elite_params, float)
    expect(elites.shape == (k, old.shape[1]), f"{what}: elites have shape {elites.shape}, expected {k} of {n}")
    index = []
    for row in elites:
        match = np.where(np.abs(old - row).max(axis=1) <= 1e-12)[0]
        expect(len(match) > 0, f"{what}: recorded elite parameters are of no individual")
        index.append(int(match[0]))
    scores = [fitness[i] for i in index]
    if mode == 0:
        expect(len(set(index)) == k, f"{what}: an individual is elite twice under truncation")
        expect(scores == sorted(fitness, reverse=True)[:k],
               f"{what}: elite fitness {scores}, the best are {sorted(fitness, reverse=True)[:k]}")
    elif mode == 2:
        expect(len(set(index)) == k, f"{what}: an individual is elite twice under proportional selection")
    return elites, index


def refit_ok(es, elites, mean, what):
    d = elites - mean
    cov = d.T @ d / len(elites)
    expect(np.allclose(es.means, elites.mean(axis=0), rtol=1e-9, atol=1e-12),
           f"{what}: distribution mean is not the elites' mean")
    scale = np.abs(cov).max() + 1e-300
    expect(np.abs(np.array(es.covar) - cov).max() <= 1e-9 * scale,
           f"{what}: covariance is not the elites' mean outer product about the old mean")
    return cov


def generations(case, rec):
    es = make(case)
    n = case["size"]
    expect(len(es.population) == n, f"population of {len(es.population)} instead of {n}")
    trivial = True
    for g, values in enumerate(case["fitness"]):
        what = f"generation {g}, mode {case['mode']}, population {n}"
        fitness = [float(v) for v in values[:n]]
        old = np.array([evo.params(a) for a in es.population])
        mean = np.array(es.means, float).copy()
        es.update_population(np.array(fitness) if case["array"] else fitness)
        elites, index = elites_ok(es, old, fitness, case["mode"], what)
        cov = refit_ok(es, elites, mean, what)
        trivial = trivial and index == list(range(len(index)))
        k = len(elites)
        new = np.array([evo.params(a) for a in es.population])
        expect(len(new) == n, f"{what}: population of {len(new)} afterwards")
        for i in range(k // 2):
            expect(np.array_equal(new[i], elites[i]), f"{what}: individual {i} does not keep elite {i}")
        expect(np.array_equal(np.array(es.elite_params, float), elites), f"{what}: recorded elites changed")
        # all others are drawn anew: in the span of the covariance about the new mean
        fresh = new[k // 2:] - elites.mean(axis=0)
        size = np.sqrt(np.abs(cov).max())
        if size > 1e-6:
            _, s2, vt = np.linalg.svd(elites - mean, full_matrices=False)
            basis = vt[s2 > 1e-9 * s2.max()]
            off = fresh - fresh @ basis.T @ basis
            expect(np.abs(off).max() <= 1e-5 * (size + np.abs(fresh).max()),
                   f"{what}: an individual is not drawn from the elites' distribution")
            moved = np.abs(new[k // 2:, None] - old[None]).max(axis=2).min(axis=1)
            expect((moved > 0).all(), f"{what}: an individual beyond the kept elites is not redrawn")
            z = (fresh @ basis.T) / (s2[:len(basis)] / np.sqrt(k))
            expect(np.abs(z).max() < 8, f"{what}: a drawn individual is {np.abs(z).max():.1f} deviations out")
    rec.label(f"mode{case['mode']}", case["cls"], f"n{n}")
    if trivial:
        rec.mark_trivial()


def final(case, rec):
    """the final ranking selects by truncation in every mode and saves the best rule"""
    es = make(case)
    n = case["size"]
    fitness = [float(v) for v in case["fitness"][0][:n]]
    old = np.array([evo.params(a) for a in es.population])
    mean = np.array(es.means, float).copy()
    with evo.contained() as find:
        es.rank_population(fitness, seed=case["rng"])
        elites, index = elites_ok(es, old, fitness, 0, "final ranking")
        refit_ok(es, elites, mean, "final ranking")
        after = np.array([evo.params(a) for a in es.population])
        expect(np.array_equal(after, old), "the final ranking changed the population")
        saved = find("ca_configs", f"{es.exp_id}_seed{case['rng']}")
        expect(len(saved) == 1, f"saved configurations: {saved}")
        fresh = gen.classes()[case["cls"]]()
        fresh.restore_config(saved[0])
        got = np.array(fresh.get_params(), float)
        expect(got.shape == elites[0].shape and np.allclose(got, elites[0], rtol=1e-5, atol=1e-6),
               "the saved configuration is not the best elite's rule")
    rec.label(f"mode{case['mode']}", case["cls"])
    if index == list(range(len(index))):
        rec.mark_trivial()


def z_scores(counts, probs, total):
    sd = np.sqrt(total * probs * (1 - probs)) + 1e-9
    return (counts - total * probs) / sd


def lottery(case, rec):
    """how often each rank becomes elite, against the documented lottery"""
    es = make(case)
    n, mode = case["size"], case["mode"]
    k = n // 8 + 1
    order = np.random.RandomState(case["rng"]).permutation(n)     # rank of individual i
    fitness = [-float(r) for r in order]
    dim = len(np.array(es.means))
    base = np.arange(n)[:, None] * np.ones(dim)
    counts = np.zeros(n)
    rounds = case["rounds"]
    for _ in range(rounds):
        for i, a in enumerate(es.population):
            a.set_params(base[i])
        es.update_population(fitness)
        for row in np.array(es.elite_params, float):
            counts[order[int(round(row[0]))]] += 1
    if mode == 1:
        # champion of k draws with replacement
        r = np.arange(n)
        p = ((n - r) / n) ** k - ((n - r - 1) / n) ** k
        total = rounds * k
    else:
        w = 1 / np.arange(1, n + 1) ** 2.0
        rng = np.random.RandomState(1)
        m = 300000
        # successive sampling without replacement by exponential races
        keys = rng.exponential(size=(m, n)) / w
        first = np.argsort(keys, axis=1)[:, :k]
        p = np.bincount(first.ravel(), minlength=n) / m
        total = rounds
    z = z_scores(counts, p, total) / np.sqrt(1 + (total / 300000 if mode == 2 else 0))
    bad = int(np.abs(z).argmax())
    # ranks too rare for the normal approximation are judged together
    rare = total * p < 10
    z[rare] = 0
    if rare.any():
        z = np.append(z, z_scores(counts[rare].sum(), p[rare].sum(), total) / 2)
    expect(np.abs(z).max() < 7, f"mode {mode}: rank {bad} became elite {counts[bad]:.0f} times in {rounds} "
           f"rounds, expected {total * p[bad]:.0f}")
    rec.label(f"mode{mode}", f"n{n}")


def restart(case, rec):
    """a search continued from a log starts at the recorded elites"""
    import os
    es = make(case)
    n = case["size"]
    k = n // 8 + 1
    es.update_population([float(v) for v in case["fitness"][0][:n]])
    elites = np.array(es.elite_params, float).copy()
    np.save("log.npy", {"elite_params": [elites * 0.5, elites]}, allow_pickle=True)
    again = make(case, input_filepath=os.path.abspath("log.npy"))
    expect(np.allclose(np.array(again.means), elites.mean(axis=0), rtol=1e-6, atol=1e-9),
           "the continued search does not start at the mean of the recorded elites")
    expect(len(again.population) == n, "population size of a continued search")
    for i in range(k):
        expect(np.allclose(evo.params(again.population[i]), elites[i], rtol=1e-6, atol=1e-9),
               f"elite {i} of the log is not individual {i} of the continued search")
    os.remove("log.npy")
    rec.label(case.get("agent") or "ParamsAgent", case["cls"])


def start(case, rec):
    """the first population is drawn from the starting distribution"""
    es = make(case)
    drawn, inner = [], es.sample_distribution

    def spy():
        drawn.append(np.array(inner(), float))
        return drawn[-1].copy()
    es.sample_distribution = spy
    es.reset()
    n = case["size"]
    expect(len(es.population) == n, f"population of {len(es.population)} instead of {n}")
    expect(np.array_equal(np.array(es.means), np.array(es.starting_means)), "search does not start at its means")
    for i in range(n):
        v = evo.params(es.population[i])
        hit = [np.allclose(v, d, rtol=1e-6, atol=1e-7) for d in drawn]
        expect(any(hit), f"individual {i} of the first population is not drawn from the distribution")
        drawn.pop(hit.index(True))
    rec.label(case.get("agent") or "ParamsAgent", case["cls"])


fit = st.one_of(gen.num(-1, 1), gen.num(-1, 1, 6), st.sampled_from([0.0, -0.5, 1e6, -1e6]))


@st.composite
def cases(draw, modes=(0, 1, 2), many=4):
    n = draw(st.one_of(st.integers(2, 12), st.integers(13, 34), st.sampled_from([8, 16, 24, 32]),
                       st.integers(2, 12), st.integers(13, 34), st.integers(35, 130)))
    count = draw(st.integers(1, many))
    return {"size": n, "mode": draw(st.sampled_from(modes)), "dtype": draw(st.sampled_from(["f32", "f64"])),
            "cls": draw(st.sampled_from(["CCA", "Lenia", "RxnDfn"])), "peaks": draw(st.integers(1, 2)),
            "rng": draw(st.integers(0, 1000)), "array": draw(st.booleans()),
            "fitness": [draw(st.lists(fit, min_size=n, max_size=n)) for _ in range(count)]}


@st.composite
def agents(draw):
    case = draw(cases(modes=(0,), many=1))
    case["agent"] = draw(st.sampled_from([None, "CPPN", "CPPNPlus"]))
    if case["agent"]:
        case["size"] = min(case["size"], 10)
    return case


@st.composite
def lotteries(draw):
    return {"size": draw(st.sampled_from([8, 11, 16, 24])), "mode": draw(st.sampled_from([1, 2])),
            "dtype": "f32", "cls": "Lenia", "peaks": 1, "rng": draw(st.integers(0, 1000)), "rounds": 4000}


FACETS = [
    Facet("generations", cases(), generations, 250, 5000),
    Facet("final", cases(many=1), final, 100, 2000),
    Facet("lottery", lotteries(), lottery, 12, 120, shrink=False),
    Facet("restart", agents(), restart, 60, 500),
    Facet("start", agents(), start, 60, 500),
]
