"""C27: universe analysis against a replay of the same grids."""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import gen
from harness import Facet, expect
from C26 import entropy, quantised

RULE = ("random and deliberately dying, persisting, growing and blinking rules x batch sizes x even and odd "
        "dims x step limits x random or CPPN starts; the grids are recorded at the rule's input and "
        "replayed by an independent instance of the rule; non-trivial when some but not all recorded "
        "values are zero, or grids empty before the limit")
ASSUMPTIONS = ["correlations of grids whose standard deviation is below 1e-3 and windowed entropies of windows "
               "with a range below 1e-4 are not compared (both are dominated by the regularising constants)"]


def phanes(case):
    from yuca.analyze import Phanes
    gen.set_dtype(case)
    kw = gen.instant_kwargs(case)
    kw.update(dim=case["dim"], batch_size=case["batch"], ca_steps=case["steps"])
    if case["cppn"] is not None:
        kw["use_cppn"] = case["cppn"]
    return Phanes(**kw)


def drift(case, ca):
    """an identity kernel that moves the pattern by a cell per step"""
    import torch
    if case.get("drift"):
        kernel = torch.zeros(1, 1, 3, 3)
        kernel[0, 0, 1 - case["drift"][0], 1 - case["drift"][1]] = 1.0
        ca.add_identity_kernel(kernel=kernel.to(torch.get_default_dtype()))
        ca.initialize_id_layer()
        ca.no_grad()
    return ca


def record(ph):
    seen = []
    ph.ca.register_forward_hook(lambda m, i, o: seen.append((i[0].detach().clone(), o.detach().clone())))
    return seen


def replay(case, first, limit):
    """the grids after each step, by another instance of the rule"""
    import torch
    ca = drift(case, gen.make_ca(case))
    grids, grid = [], first.clone()
    with torch.no_grad():
        for _ in range(limit):
            grid = ca(grid)
            grids.append(gen.arr(grid))
            if (grids[-1] == 0).all():
                break
    return grids


def compare(case, results, first, stepwise=True):
    """records of a run against the replayed grids; (some grid emptied, nontrivial)"""
    grids = replay(case, first, case["steps"])
    n = len(grids)
    for key in ("step", "fertility_ratio", "mortality_ratio", "autocorrelation", "entropy_mean",
                "entropy_std_dev"):
        expect(len(results[key]) == n, f"{key} has {len(results[key])} entries, {n} steps were due "
               f"(limit {case['steps']})")
    expect([int(s) for s in results["step"]] == list(range(n)), f"steps {results['step']}")
    last = np.full(case["batch"], -1)
    old = gen.arr(first)
    for s, g in enumerate(grids):
        empty = g.reshape(len(g), -1).sum(-1) == 0
        edge = g[:, :, 0, :].sum((1, 2)) + g[:, :, -1, :].sum((1, 2)) + g[..., 0].sum((1, 2)) + g[..., -1].sum((1, 2))
        last[(last == -1) & empty] = s
        expect(abs(results["mortality_ratio"][s] - empty.mean()) < 1e-6,
               f"mortality {results['mortality_ratio'][s]} at step {s}: {empty.sum()} of {len(g)} grids are empty")
        expect(abs(results["fertility_ratio"][s] - (edge > 0).mean()) < 1e-6,
               f"fertility {results['fertility_ratio'][s]} at step {s}: {(edge > 0).sum()} of {len(g)} grids "
               "are active at the border")
        if g.std() > 1e-3 and old.std() > 1e-3:
            a, b = ((x - x.mean()) / x.std(ddof=1) for x in (g, old))
            want = (a * b).mean()
            got = np.asarray(results["autocorrelation"][s], float)
            expect(abs(got[0] - want) < 2e-3 and abs(got[2] - want) < 2e-3 and abs(got[3] - want) < 2e-3
                   and abs(got[1]) < 1e-5, f"correlation {got} at step {s} instead of {want}")
        old = g
    expect(np.array_equal(np.asarray(results["last_step"]).ravel(), last),
           f"last steps {results['last_step']}, grids first emptied at {last}")
    return grids, last


def start(case, first):
    """documented start: activity only in the central half"""
    d, b = case["dim"], case["dim"] // 2
    g = gen.arr(first)
    expect(g.shape == (case["batch"], 1, d, d), f"analysed grids of shape {g.shape}")
    expect((g >= 0).all() and (g <= 1).all(), "start outside [0, 1]")
    lo, hi = b // 2, d - b // 2 if case["cppn"] else b // 2 + b
    out = g.copy()
    out[:, :, lo:hi, lo:hi] = 0
    expect((out == 0).all(), "the start is active outside its bounding box")
    if not case["cppn"]:
        expect((g[:, :, lo:hi, lo:hi] > 0).mean() > 0.9 if b > 1 else True, "the bounding box is not filled")
        if case["batch"] > 1:
            expect(not np.array_equal(g[0], g[1]), "all grids of the batch start alike")


def run(case, stub):
    import torch
    ph = phanes(case)
    ph.ca.load_config(gen.to_config(case))
    drift(case, ph.ca)
    seen = record(ph)
    if stub:
        ph.get_spatial_entropy = lambda grid, window_size=63: np.zeros(2)
    torch.manual_seed(case["seed"])
    np.random.seed(case["seed"])
    return ph.analyze_universe(), seen


def records(case, rec):
    results, seen = run(case, True)
    first = seen[0][0]
    start(case, first)
    grids, last = compare(case, results, first)
    again, _ = run(case, True)
    for key in ("mortality_ratio", "fertility_ratio"):
        expect(again[key] == results[key], f"{key} differs between two runs from the same seed")
    rec.label(case["rule"], "cppn" if case["cppn"] else "random",
              "died" if (last >= 0).all() else "some died" if (last >= 0).any() else "lived")
    rec.label("odd" if case["dim"] % 2 else "even")
    n = np.concatenate([np.asarray(results["mortality_ratio"]), np.asarray(results["fertility_ratio"])])
    if len(np.unique(n)) < 2:
        rec.mark_trivial()


def entropies(case, rec):
    results, seen = run(case, False)
    grids, last = compare(case, results, seen[0][0])
    half = case["nbhd"][0]["radius"]
    d = case["dim"]
    checked = 0
    for s, g in enumerate(grids):
        # the analyzer's regularised range may move the maximum into the bin below
        hs = {0: [], 1e-9: []}
        ok = True
        for b in range(case["batch"]):
            for i in range(d):
                for j in range(d):
                    win = g[b, 0][np.ix_(np.arange(i - half, i + half + 1) % d, np.arange(j - half, j + half + 1) % d)]
                    r = win.max() - win.min()
                    if 0 < r < 1e-4:
                        ok = False
                    for shave in hs:
                        hs[shave].append(entropy(quantised(win, shave)))
        if not ok:
            continue
        checked += 1
        slack = 0.02 if case["dtype"] == "f32" else 1e-3
        for key, fn in (("entropy_mean", np.mean), ("entropy_std_dev", np.std)):
            want = [float(fn(h)) for h in hs.values()]
            got = float(results[key][s])
            expect(min(want) - slack <= got <= max(want) + slack, f"{key} {got} at step {s} instead of {want[0]}")
    rec.label(case["rule"], f"{checked} steps")
    if not checked:
        rec.mark_trivial()


def multiverse(case, rec):
    """every configuration of a directory is analysed as itself"""
    scratch = os.path.join(os.getcwd(), "multi")
    shutil.rmtree(scratch, ignore_errors=True)
    home = os.getcwd()
    os.makedirs(os.path.join(scratch, "work", "confs"))
    if case["ready"]:
        os.makedirs(os.path.join(scratch, "work", "ca_analysis"))
    os.chdir(os.path.join(scratch, "work"))
    try:
        analyse(case, rec, scratch)
    finally:
        os.chdir(home)


def analyse(case, rec, scratch):
    import torch
    from yuca.analyze import Phanes
    cases = case["cases"]
    gen.set_dtype(cases[0])
    for n, c in enumerate(cases):
        np.save(os.path.join("confs", f"rule_{n}.npy"), gen.to_config(c))
    if case["clutter"]:
        open(os.path.join("confs", "readme.txt"), "w").close()
    base = cases[0]
    ph = Phanes(dim=base["dim"], batch_size=base["batch"], ca_steps=base["steps"],
                input_directory="confs/" if case["slash"] else "confs")
    ph.get_spatial_entropy = lambda grid, window_size=63: np.zeros(2)
    firsts = []
    real = ph.analyze_universe
    seen = record(ph)

    def spy():
        n = len(seen)
        out = real()
        firsts.append((seen[n][0], out))
        return out
    ph.analyze_universe = spy
    torch.manual_seed(case["seed"])
    ph.analyze_multiverse()
    folders = [(d, fs) for d, _, fs in os.walk(scratch) if os.path.basename(d) == "ca_analysis" and fs]
    expect(len(folders) == 1, f"the analyses were saved in the folders {folders}")
    folder, files = folders[0]
    expect(len(files) == len(cases), f"{len(cases)} configurations gave the files {files}")
    for n, c in enumerate(cases):
        mine = [f for f in files if f.startswith(f"rule_{n}")]
        expect(len(mine) == 1, f"rule_{n} has the analyses {mine}")
        data = np.load(os.path.join(folder, mine[0]), allow_pickle=True).reshape(1)[0]
        expect(data["name"] == f"rule_{n}.npy", f"the analysis of rule_{n} is named {data['name']}")
        expect(data["max_ca_steps"] == base["steps"], f"recorded step limit {data['max_ca_steps']}")
        starts = [f for f, out in firsts if out["mortality_ratio"] == data["mortality_ratio"]
                  and out["fertility_ratio"] == data["fertility_ratio"]
                  and out["autocorrelation"] == data["autocorrelation"]]
        expect(starts, "the saved records are of no analysis that was run")
        errors = []
        for first in starts:
            try:
                compare({**c, "dim": base["dim"], "batch": base["batch"], "steps": base["steps"]}, data, first)
                break
            except Exception as exc:  # noqa: BLE001
                errors.append(exc)
        else:
            raise errors[0]
    rec.label(f"{len(cases)} rules")
    if len(cases) < 2:
        rec.mark_trivial()


@st.composite
def rule(draw, high=20, only=None):
    """a one-channel rule: random, or made to die, grow or blink"""
    kind = only or draw(st.sampled_from(["random", "random", "drifting", "dying", "slow death", "fading", "growing", "blinking", "frozen"]))
    case = draw(gen.ca_spec(classes=["CCA"], channels=(1,), internals=(1,), dtypes=("f32", "f32", "f64"),
                            radii=st.integers(1, 3)))
    case["nbhd"] = case["nbhd"][:1]
    case["rule"] = kind

    def poly(*c):
        return [{"name": "Polynomial", "mode": 0, "coefficients": list(c)}]
    if kind in ("dying", "slow death"):
        c = draw(gen.num(0.2, 1.0))
        case["gen"] = case["per"] = poly(-c)
        case["dt"] = draw(gen.num(0.3, 1.0)) if kind == "dying" else draw(gen.num(0.03, 0.2))
    elif kind == "fading":                  # every cell by a factor, never quite to nothing
        case.pop("ident", None)
        case["gen"], case["per"] = poly(0.0), poly(-1.0)
        case["dt"] = draw(gen.num(0.5, 0.96))
        case.pop("omit", None)
    elif kind == "growing":
        case["gen"], case["per"] = [{"name": "Gaussian", "mode": 1, "mu": draw(gen.num(0.1, 0.4)),
                                     "sigma": draw(gen.num(0.05, 0.3))}], poly(draw(gen.num(-0.1, 0.5)))
    elif kind == "drifting":                # over one border only
        case.pop("ident", None)
        case["gen"] = case["per"] = poly(draw(st.sampled_from([0.0, -0.05, -0.2])))
        case["drift"] = draw(st.sampled_from([[0, 1], [0, -1], [1, 0], [-1, 0], [1, 1], [1, -1], [0, 0]]))
    elif kind == "frozen":
        case["gen"] = case["per"] = poly(0.0)
    case["dim"] = draw(st.integers(max(4, gen.min_dim(case)), high))
    case["batch"] = draw(st.integers(1, 5))
    case["steps"] = draw(st.integers(1, 14))
    if kind == "drifting":
        case["dim"] = draw(st.integers(max(4, gen.min_dim(case)), 13))
        case["steps"] = draw(st.integers(4, 14))
    case["cppn"] = draw(st.sampled_from([None, False, True, 0, 1]))
    case["seed"] = draw(gen.seeds)
    return case


def blink(case, a, b):
    case["gen"] = case["per"] = [{"name": "Polynomial", "mode": 0, "coefficients": [a, b]}]
    return case


@st.composite
def blinking(draw, high=20):
    case = draw(rule(high))
    if case["rule"] == "blinking":
        case = blink(case, draw(gen.num(-0.5, 3)), draw(gen.num(-3, 3)))
        case["dt"] = draw(gen.num(0.5, 1.0))
    return case


@st.composite
def universes(draw):
    cases = draw(st.lists(blinking(12).filter(lambda c: not c.get("drift")), min_size=1, max_size=3))
    for c in cases:
        c.update(dtype=cases[0]["dtype"], pad="circular")
    for key in ("dim",):
        d = max(max(c["dim"], gen.min_dim(c)) for c in cases)
        for c in cases:
            c[key] = d
    return {"cases": cases, "seed": draw(gen.seeds), "clutter": draw(st.booleans()),
            "ready": draw(st.booleans()), "slash": draw(st.booleans())}


@st.composite
def small(draw):
    case = draw(blinking(9))
    case["batch"] = draw(st.integers(1, 2))
    case["steps"] = draw(st.integers(1, 3))
    case["dim"] = min(case["dim"], 8) if gen.min_dim(case) <= 8 else case["dim"]
    return case


FACETS = [
    Facet("drifting", rule(only="drifting"), records, 120, 1200),
    Facet("records", blinking(), records, 500, 5000),
    Facet("records_wide", blinking(48), records, 120, 1200),
    Facet("entropies", small(), entropies, 14, 250),
    Facet("entropies2", small(), entropies, 14, 250),
    Facet("multiverse", universes(), multiverse, 120, 1000),
]
