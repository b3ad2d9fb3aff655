"""C20: what an evolution run writes: logs, elite configurations, best configuration."""
import os

import numpy as np
import torch
from hypothesis import strategies as st

import evo
import gen
from harness import Facet, expect

RULE = ("random small serial searches (rules, patterns, both) over CA classes, selection modes, population "
        "sizes, generations and seed lists; non-trivial when fitness varies and the elites are not simply "
        "the first individuals of the last generation")
QUICK_FACTOR = 2
ASSUMPTIONS = ["in two thirds of the cases a known function of the parameters is added to the fitness the "
               "environment computes, so that individuals differ",
               "animations are not drawn (they have their own property) but their grid and rule recorded",
               "for agents of over a thousand parameters the multivariate normal draw is replaced by "
               "independent normal draws about the same means (the decomposition takes seconds)"]

FIELDS = {"mean_fitness": np.mean, "max_fitness": np.max, "min_fitness": np.min,
          "std_dev_fitness": np.std}


def make(case):
    from yuca.cmaes import CMAES, CMACES
    from yuca.cppn import CPPN, CPPNPlus
    gen.set_dtype(dict(case, cls="CCA"))
    kw = dict(population_size=case["size"], generations=case["generations"], seed=list(case["seeds"]),
              selection_mode=case["mode"], ca_fn=gen.classes()[case["cls"]], dim=case["dim"],
              ca_steps=case["steps"], batch_size=case["batch"], replicates=case["replicates"],
              kernel_radius=case["radius"], kernel_peaks=case["peaks"], hidden_channels=3)
    cls = CMAES
    if case["what"] == "universe":
        kw.update(tag="verif", env_fn=evo.wrappers()["SimpleHaltingWrapper"])
    else:
        kw.update(env_fn=evo.wrappers()["GliderWrapper"], batch_size=1,
                  agent_fn=CPPN if case["what"] == "pattern" else CPPNPlus,
                  tag="verif_" + case["what"])
        if case["what"] == "coevo":
            cls = CMACES
    if case["cls"] == "RxnDfn":
        kw["external_channels"] = 2
    if case.get("config"):
        kw["ca_config"] = case["config"]
    es = cls(**kw)
    if case["what"] != "universe":
        es.sample_distribution = lambda: es.means + case["spread"] * np.random.randn(*np.shape(es.means))
    elif case["cls"] in ("CCA", "Lenia", "CODE", "RandomStepCA", "MetaCA") and not case.get("config"):
        # start at rules under which some grids survive and some do not
        v = np.array(es.starting_means, float)
        n = 2 if case["cls"] == "Lenia" else 4
        v[:n] = [0.16, 0.04, 0.16, 0.04][:n]
        es.starting_means = v
        es.starting_covar = np.diag((case["spread"] * np.abs(v)) ** 2)
    else:
        v = np.array(es.starting_means, float)
        es.starting_covar = np.diag((0.5 * case["spread"] * np.abs(v)) ** 2)
    return es


def rule_of(case, es, vector):
    n = len(np.array(es.env.ca.get_params()))
    return np.array(vector, float).ravel()[-n:] if case["what"] == "coevo" else np.array(vector, float).ravel()


def run(case, find):
    """one whole search; returns what it evaluated, its log and the saved configurations"""
    es = make(case)
    seen = []
    inner = es.get_fitness

    def spy(agent_index, *a, **k):
        before = np.array(es.population[agent_index].get_params(), float).copy()
        result = inner(agent_index, *a, **k)
        if case["bonus"]:           # fitness that tells all individuals apart
            result = (result[0] + case["bonus"] * np.sin(100 * before[-1] + 40 * before.mean()), *result[1:])
        if case.get("stds"):        # a given spread per generation
            z = np.random.RandomState(case["rng"] + len(seen) // case["size"]).permutation(case["size"]) * 1.0
            z = (z - z.mean()) / z.std() * case["stds"][len(seen) // case["size"] % len(case["stds"])]
            result = (-0.3 + z[agent_index], *result[1:])
        seen.append((agent_index, float(result[0]), before))
        return result
    es.get_fitness = spy

    def show(grid, ca, *a, **k):
        es.shown.append((len(seen), str(k.get("tag")), gen.arr(grid).copy(), np.array(ca.get_params(), float).copy()))
        if case["cls"] not in ("NCA", "RandomStepCA"):
            # a few of its frames, and the grid it started from if that was stepped before
            start, first = last[-1] if last else (None, None)
            if first is None or first.shape != grid.shape or not torch.equal(first, grid):
                start, first = grid.clone(), None
            frames, x = [], grid
            with torch.no_grad():
                for _ in range(3):
                    x = ca(x)
                    frames.append(x.clone())
            es.frames.append((str(k.get("tag")), start, first is not None, frames, es.shown[-1][3]))
    es.shown, es.frames, last = [], [], []

    def note(module, given, result):
        last[:] = [(given[0].clone(), result.clone())]
    es.env.ca.register_forward_hook(note)
    es.on_show = show
    base = es.env.ca.make_config()
    base_file = os.path.join(os.getcwd(), "base.npy")
    np.save(base_file, base, allow_pickle=True)
    with evo.no_gifs(es.on_show):
        es.search()
    logs, saved = {}, {}
    for s in case["seeds"]:
        hits = find("logs", f"{es.exp_id}_seed{s}.npy")
        expect(len(hits) == 1, f"log of seed {s}: {hits}")
        logs[s] = np.load(hits[0], allow_pickle=True).reshape(1)[0]
        hits = find("ca_configs", f"{es.exp_id}_seed{s}.npy")
        expect(len(hits) == 1, f"best configuration of seed {s}: {hits}")
        ca = gen.classes()[case["cls"]]()
        ca.restore_config(hits[0])
        saved[s] = ca
        os.remove(hits[0])
    for s in case["seeds"]:
        for hit in find("logs", f"{es.exp_id}_seed{s}.npy"):
            os.remove(hit)
    return es, seen, logs, saved, base_file


def fresh(case, file, params=None):
    ca = gen.classes()[case["cls"]]()
    ca.restore_config(file)
    ca.no_grad()
    if params is not None:
        ca.set_params(params)
    ca.eval()
    return ca


def search(case, rec):
    with evo.contained() as find:
        case = dict(case)
        os.makedirs("logs", exist_ok=True)
        if case["given"]:
            np.random.seed(case["rng"])
            torch.manual_seed(case["rng"])
            gen.set_dtype(dict(case, cls="CCA"))
            kw = {"kernel_radius": case["radius"], "kernel_peaks": case["peaks"], "hidden_channels": 3}
            ca = gen.classes()[case["cls"]](**kw)
            if case["cls"] in ("CCA", "Lenia"):
                ca.set_params(ca.get_params() * 0.9)
            case["config"] = os.path.join(os.getcwd(), "given.npy")
            ca.save_config(case["config"])
        es, seen, logs, saved, base = run(case, find)
        judge(case, rec, es, seen, logs, saved, base)
        follow(case, es, base, f"{case['what']} search of {case['cls']}")
        if len(case["seeds"]) > 1:
            # the run of a seed does not depend on the seeds before it
            last = case["seeds"][-1]
            _, _, alone, alone_saved, _ = run({**case, "seeds": [case["seeds"][0], 100, last]}, find)
            for f in list(FIELDS) + ["elite_params"]:
                expect(same(logs[last][f], alone[last][f]), f"{f} of seed {last} after {case['seeds'][0]} is {logs[last][f]}, "
                       f"with another seed between them {alone[last][f]}")
            expect(np.array_equal(saved[last].get_params(), alone_saved[last].get_params()),
                   f"the best configuration of seed {last} depends on the seeds before it")
        if case["twice"]:
            _, seen2, logs2, saved2, _ = run(case, find)
            expect([s[:2] for s in seen] == [s[:2] for s in seen2], "a second search differs in its evaluations")
            for s in case["seeds"]:
                for f in list(FIELDS) + ["elite_params", "distribution"]:
                    if f in logs[s]:
                        expect(same(logs[s][f], logs2[s][f]), f"{f} differs in a second search from the same seed")
                for a, b in zip(logs[s]["elite_configs"], logs2[s]["elite_configs"]):
                    expect(gen.equal({str(i): x for i, x in enumerate(a)}, {str(i): x for i, x in enumerate(b)}),
                           "elite configurations differ in a second search from the same seed")
                expect(np.array_equal(saved[s].get_params(), saved2[s].get_params()),
                       "the best configuration differs in a second search from the same seed")


def same(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return np.array_equal(np.asarray(a), np.asarray(b))


def judge(case, rec, es, seen, logs, saved, base):
    n, k = case["size"], case["size"] // 8 + 1
    what = f"{case['what']} search of {case['cls']}"
    expect(len(seen) % n == 0, f"{what}: {len(seen)} evaluations of a population of {n}")
    chunks = [seen[i:i + n] for i in range(0, len(seen), n)]
    # split the generations among the seeds: a search ends after its last generation or early
    per_seed, rest = [], list(chunks)
    for _ in case["seeds"]:
        mine = []
        while rest and len(mine) < case["generations"]:
            mine.append(rest.pop(0))
            if len(mine) > 7 and np.std([f for _, f, _ in mine[-1]]) < 0.02:
                break
        per_seed.append(mine)
    expect(not rest, f"{what}: more generations than asked for")
    varied, at = False, 0
    grid = torch.tensor(np.random.RandomState(case["rng"]).rand(
        1, es.env.ca.external_channels, 9, 9)).to(torch.get_default_dtype())
    for s, mine in zip(case["seeds"], per_seed):
        log = logs[s]
        count = len(mine)
        expect(count == case["generations"] or (count > 7 and np.std([f for _, f, _ in mine[-1]]) < 0.02),
               f"{what}: {count} of {case['generations']} generations, the last of them with a spread of "
               f"{np.std([f for _, f, _ in mine[-1]])}")
        for field, fn in FIELDS.items():
            values = log[field]
            expect(len(values) == count, f"{what}: {len(values)} entries of {field}, {count} generations")
            for g in range(count):
                want = fn([f for _, f, _ in mine[g]])
                expect(abs(values[len(values) - count + g] - want) <= 1e-6 + 1e-5 * abs(want),
                       f"{what}: {field} of generation {g} is {values[len(values) - count + g]}, expected {want}")
        for chunk in mine:
            expect(sorted(i for i, _, _ in chunk) == list(range(n)), f"{what}: an individual was not evaluated once")
        configs, params = log["elite_configs"], log["elite_params"]
        expect(len(configs) == count, f"{what}: {len(configs)} entries of elite configurations")
        gens = range(count) if case["what"] == "universe" else [count - 1]
        if case["what"] != "pattern":
            expect(len(params) == count, f"{what}: {len(params)} entries of elite parameters")
        for g in gens:
            back = g - count
            elites = np.array(params[back], float)
            expect(elites.shape[0] == k and len(configs[back]) == k, f"{what}: {len(elites)} elites of {n}")
            chunk = mine[g]
            if case["mode"] == 0 or g == count - 1:
                order = sorted((f for _, f, _ in chunk), reverse=True)[:k]
                for j in range(k):
                    hits = [f for _, f, p in chunk if np.allclose(p, elites[j].ravel(), rtol=1e-12, atol=0)]
                    expect(order[j] in hits, f"{what}: logged elite {j} of generation {g} is not the individual "
                           f"of fitness {order[j]}")
            else:
                for j in range(k):
                    expect(any(np.allclose(p, elites[j].ravel(), rtol=1e-12, atol=0) for _, _, p in chunk),
                           f"{what}: logged elite {j} of generation {g} was not evaluated in it")
            for j in range(k):
                expect_same(case, configs[back][j], base,
                            None if case["what"] == "pattern" else rule_of(case, es, elites[j]), grid,
                            f"{what}: elite configuration {j} of generation {g}")
        top = np.array(params[-1], float)[0]
        ref = fresh(case, base, None if case["what"] == "pattern" else rule_of(case, es, top))
        gen.same_step(saved[s].eval(), ref, grid, f"{what}: saved best configuration", tol=1e-6)
        expect(np.allclose(saved[s].get_params(), ref.get_params(), rtol=1e-6, atol=1e-7),
               f"{what}: saved best configuration has other parameters than the top elite")
        at += n * count
        animations(case, es, [e for e in es.shown if e[0] == at and (len(case["seeds"]) == 1 or f"seed{s}_" in e[1])],
                   np.array(params[-1], float), base, what)
        fit = [f for _, f, _ in mine[-1]]
        varied = varied or (len(set(fit)) > 1 and int(np.argmax(fit)) != 0)
        rec.label(f"generations{count}")
    rec.label(case["what"], case["cls"], f"mode{case['mode']}", f"k{k}")
    if not varied:
        rec.mark_trivial()


def animations(case, es, shown, elites, base, what):
    """the animations made at the end are those of the elites"""
    expect(len(shown) >= len(elites), f"{what}: {len(shown)} closing animations for {len(elites)} elites")
    want = []
    for v in elites:
        if case["what"] == "universe":
            want.append((None, fresh(case, base, rule_of(case, es, v)).get_params()))
            continue
        agent = es.population[0]
        kept = agent.get_params()
        agent.set_params(v.ravel())
        if case["what"] == "coevo":
            want.append((gen.arr(agent.get_action()[1]), fresh(case, base, rule_of(case, es, v)).get_params()))
        else:
            ca = fresh(case, base)
            grid = agent.get_action()
            rigid = case["cls"] in ("CCA", "Lenia", "NCA", "RxnDfn")
            with torch.no_grad():
                want.append(((gen.arr(grid), gen.arr(ca(grid))) if rigid else None, ca.get_params()))
        agent.set_params(kept)
    hit = set()
    for _, tag, grid, rule in shown:
        fits = [n for n, (g, v) in enumerate(want) if np.shape(v) == rule.shape
                and np.allclose(v, rule, rtol=1e-5, atol=1e-6)
                and (g is None or any(x.shape == grid.shape and np.abs(x - grid).max() < 1e-4
                                      for x in (g if isinstance(g, tuple) else (g,))))]
        expect(fits, f"{what}: the closing animation {tag} is not of an elite")
        hit.update(fits)
    expect(len(hit) == len(want), f"{what}: closing animations of the elites {sorted(hit)} of {len(want)}")


def follow(case, es, base, what):
    """animations show what a CA with their rule does from a reset on"""
    for tag, start, stepped, frames, rule in es.frames:
        ca = fresh(case, base, rule)
        ca.reset()
        with torch.no_grad():
            x = ca(start) if stepped else start
            for n, frame in enumerate(frames):
                x = ca(x)
                far = float((x - frame).abs().max())
                expect(far < 1e-4, f"{what}: frame {n + 1} of the animation {tag} is {far} away from what its rule does")


def expect_same(case, config, base, params, grid, what):
    file = os.path.join(os.getcwd(), "elite.npy")
    np.save(file, config, allow_pickle=True)
    a, b = fresh(case, file), fresh(case, base, params)
    os.remove(file)
    gen.same_step(a, b, grid, what, tol=1e-6)
    expect(np.allclose(a.get_params(), b.get_params(), rtol=1e-6, atol=1e-7), f"{what} has other parameters")


@st.composite
def cases(draw, what, classes, early=False):
    size = draw(st.one_of(st.integers(2, 7), st.integers(8, 17))) if what == "universe" else draw(st.integers(2, 9))
    generations = draw(st.integers(9, 11)) if early else draw(st.integers(1, 3 if what == "universe" else 2))
    stds = st.lists(st.sampled_from([0.0, 0.01, 0.019, 0.0195, 0.0205, 0.021, 0.025, 0.03, 0.05, 0.2]), min_size=11, max_size=11)
    return {"stds": draw(st.one_of(st.none(), stds, stds)) if early else None, "what": what, "cls": draw(st.sampled_from(classes)), "dtype": draw(st.sampled_from(["f32", "f32", "f64"])),
            "size": min(size, 11) if early else size, "generations": generations, "mode": draw(st.integers(0, 2)),
            "seeds": draw(st.lists(st.integers(0, 99), min_size=1, max_size=1 if early else 2, unique=True)),
            "dim": draw(st.integers(8, 12)), "steps": draw(st.integers(1, 6 if early else 12)),
            "batch": draw(st.integers(3, 8)), "replicates": 1 if early else draw(st.integers(1, 2)),
            "radius": draw(st.integers(1, 3)), "peaks": draw(st.integers(1, 2)),
            "spread": draw(st.sampled_from([0.3, 0.6])) if not early else draw(st.sampled_from([1e-4, 1e-3, 0.3])),
            "bonus": draw(st.sampled_from([0.01, 0.03, 0.045, 0.06, 0.09] if early else [0.0, 0.5, 0.5])), "given": draw(st.booleans()), "twice": draw(st.booleans()),
            "rng": draw(st.integers(0, 999))}


CLS = ["CCA", "CCA", "Lenia", "RxnDfn", "NCA", "CODE", "RandomStepCA", "MetaCA"]
FACETS = [
    Facet("rules", cases("universe", CLS), search, 48, 1200),
    Facet("early", cases("universe", ["CCA", "Lenia", "RxnDfn"], early=True), search, 15, 200),
    Facet("patterns", cases("pattern", CLS), search, 24, 400),
    Facet("coevolution", cases("coevo", CLS), search, 24, 400),
]
