"""C30: cloning: same neighborhood, best weights, own file names, reproducible."""
import contextlib
import os

import numpy as np
from hypothesis import strategies as st

import evo
import gen
import harness
from harness import Facet, expect

RULE = ("shipped and generated source rules, hidden sizes, step and iteration counts and learning rates up to "
        "0.5 (so that the best training step is often not the last); every training step's prediction, target "
        "and weights are recorded and the best step recomputed; non-trivial when the best step is not the last")
ASSUMPTIONS = ["the weights of the best step may be those just before or just after that step's update"]

SHIPPED = ["orbium.npy", "conway_life.npy", "morley.npy", "o_bicaudatus.npy", "scutium_gravidus.npy",
           "smoothlife.npy", "synorbium.npy", "triscutium_solidus.npy"]


def state(nca):
    return {k: v.detach().double().numpy().copy() for k, v in nca.state_dict().items()}


def same(a, b, keys=None):
    keys = keys or a.keys()
    return set(a) == set(b) and all(a[k].shape == b[k].shape and np.array_equal(a[k], b[k]) for k in keys)


@contextlib.contextmanager
def watched(log):
    """records every update computed by any CA while training"""
    from yuca.ca.common import CA
    old = CA.update_helper

    def helper(self, universe):
        weights = state(self) if "NCA" in type(self).__name__ else None
        out = old(self, universe)
        log.append((type(self).__name__, out.detach().double().numpy().copy(), weights,
                    universe.detach().double().numpy().copy(), self))
        return out
    CA.update_helper = helper
    try:
        yield
    finally:
        CA.update_helper = old


def training(log):
    """(error, weights before, weights after or None, target, grid) of every training step: a prediction
    and a target on the same grid"""
    steps = []
    for n, (name, out, weights, grid, nca) in enumerate(log):
        if weights is None:
            continue
        for m in (n - 1, n + 1):
            if 0 <= m < len(log) and log[m][2] is None and log[m][3].shape == grid.shape \
                    and np.array_equal(log[m][3], grid):
                target = log[m][1]
                error = (np.abs(out - target) / (1e-9 + np.abs(target))).mean()
                steps.append([float(error), weights, None, target, grid, nca, log[m][4]])
                break
    for a, b in zip(steps, steps[1:]):
        if a[5] is b[5]:
            a[2] = b[1]
    return steps


def own_name(src, n):
    return f"own{'.' if src.get('dots') else '_'}rule{n}.npy"


def source(case, n=0):
    """file name of a source configuration"""
    src = case["sources"][n]
    if isinstance(src, str):
        return src
    gen.set_dtype({"dtype": "f32"})
    name = own_name(src, n)
    np.save(name, gen.to_config(src))
    return name


def run(case, find, log=None):
    import torch
    from yuca.clone import clone_from_ca
    gen.set_dtype({"dtype": "f32"})
    for f in find("logs", "verif"):
        os.remove(f)
    if case["stale"]:               # clones of these names from an earlier run
        for n in range(len(case["sources"])):
            name = case["sources"][n] if isinstance(case["sources"][n], str) else own_name(case["sources"][n], n)
            torch.save({}, os.path.join("logs", expected_name(case, name)))
    names = [source(case, n) for n in range(len(case["sources"]))]
    kw = dict(ca_config=names if case["as_list"] or len(names) > 1 else names[0],
              max_steps=case["steps"], max_iterations=case["iterations"], hidden_channels=case["hidden"],
              max_hidden_channels=case["max_hidden"], batch_size=case["batch"], learning_rate=case["lr"],
              error_threshold=case["threshold"], save_name=case["save_name"], verbose=case["verbose"])
    with watched(log if log is not None else []):
        clone_from_ca(**kw)
    out = {}
    for f in find("logs", "verif"):
        data = torch.load(f)
        out[os.path.basename(f)] = {k: v.detach().double().numpy().copy() for k, v in data.items()}
    return names, out


def expected_name(case, name):
    stem = name[:-4]
    return case["save_name"].replace("ca_config", stem)


def clone(case, rec):
    import torch
    from yuca.ca.continuous import CCA
    from yuca.ca.neural import NCA
    with evo.contained() as find:
        log = []
        names, saved = run(case, find, log)
        expect(set(saved) == {expected_name(case, n) for n in names}, f"saved {sorted(saved)}")
        if case["again"]:
            _, twice = run(case, find)
            expect(set(twice) == set(saved) and all(same(saved[k], twice[k]) for k in saved),
                   "two runs give different clones")
    for name in names:
        got = saved[expected_name(case, name)]
        ca = CCA()
        ca.restore_config(os.path.abspath(name) if os.path.exists(name) else name, verbose=False)
        kernel = ca.neighborhood_kernels.detach().double().numpy()
        hits = [k for k, v in got.items() if v.shape == kernel.shape and np.array_equal(v, kernel)]
        expect(hits, f"the clone of {name} does not have its neighborhood kernel")
        hidden = max(v.shape[0] for k, v in got.items() if "weights" in k and v.ndim == 4)
        nca = NCA(hidden_channels=hidden, kernel_radius=ca.kernel_radius)
        expect(set(nca.state_dict()) == set(got), "the saved state is not that of a neural CA of one channel")
        nca.load_state_dict({k: torch.tensor(v, dtype=torch.float32) for k, v in got.items()})
        expect(nca.state_dict()["neighborhood_layer.weight"].shape == kernel.shape, "loaded radius differs")
    steps = training(log)
    # the steps of each source: its targets are the source's own updates
    early = False
    parts = split(steps)
    if len(parts) != len(names):
        rec.label("training not observed")
        return rec.mark_trivial()
    for name, part in zip(names, parts):
        got = saved[expected_name(case, name)]
        ca = CCA()
        ca.restore_config(os.path.abspath(name) if os.path.exists(name) else name, verbose=False)
        ca.no_grad()
        for error, _, _, target, grid, _, _ in (part[0], part[-1]):
            with torch.no_grad():
                own = ca.update_universe(ca.id_conv(torch.tensor(grid).float()),
                                         ca.neighborhood_conv(torch.tensor(grid).float()))
            expect(np.allclose(gen.arr(own), target, atol=1e-5), f"{name} was trained on the update of another rule")
        course(case, part, ca, f"cloning {name}")
        best = min(s[0] for s in part)
        ok = [s for s in part if s[0] <= best * (1 + 1e-5) + 1e-12]
        fits = any(same(got, w) for s in ok for w in s[1:3] if w is not None)
        for s in ok:
            if s[2] is None:        # the update of a run's last step is not observed, but bounded
                fits = fits or (set(got) == set(s[1]) and all(
                    got[k].shape == v.shape and np.abs(got[k] - v).max() <= 4 * case["lr"] + 1e-6
                    for k, v in s[1].items())
                    and not any(same(got, w) for t in part if not any(t is o for o in ok) for w in t[1:3] if w is not None))
        expect(fits, f"the saved clone of {name} does not have the weights of the best of {len(part)} training steps "
               f"(errors {[round(s[0], 4) for s in part]})")
        early = early or ok[-1] is not part[-1]
    rec.label(f"{len(names)} sources", f"iterations {case['iterations']}", "best early" if early else "best last")
    if not early:
        rec.mark_trivial()


def course(case, part, ca, what):
    """the runs of one source: growing width, number of steps, and grids that follow the source"""
    import torch
    runs = []
    for s in part:
        if not runs or runs[-1][-1][5] is not s[5]:
            runs.append([])
        runs[-1].append(s)
    expect(len(runs) == case["iterations"], f"{what}: {len(runs)} of {case['iterations']} iterations")
    width = case["hidden"]
    for n, r in enumerate(runs):
        got = max(v.shape[0] for k, v in r[0][1].items() if "weights" in k and v.ndim == 4)
        expect(got == width, f"{what}: iteration {n} trains {got} hidden channels, expected {width}")
        width = min(case["max_hidden"], int(width * 1.25))
        best = min(s[0] for s in r)
        if abs(best - case["threshold"]) > 1e-4 * case["threshold"]:
            expect(len(r) <= case["steps"] and (len(r) == case["steps"] or best < case["threshold"]),
                   f"{what}: iteration {n} stops after {len(r)} of {case['steps']} steps with an error of {best}, "
                   f"threshold {case['threshold']}")
            expect(all(s[0] >= case["threshold"] * (1 - 1e-4) for s in r[:-1]),
                   f"{what}: iteration {n} goes on below the threshold")
        for a, b in zip(r, r[1:]):
            expect(len(b[4]) == case["batch"], f"{what}: batch of {len(b[4])} grids")
            with torch.no_grad():
                want = gen.arr(ca(torch.tensor(a[4]).float()))
            follows = [np.abs(x - y).max() < 1e-5 for x, y in zip(want, b[4])]
            expect(sum(follows) >= case["batch"] - 1,
                   f"{what}: {len(follows) - sum(follows)} of {case['batch']} grids do not follow the source")
            expect(case["batch"] == 1 or not all(follows) or np.abs(want).max() == 0,
                   f"{what}: no grid of the batch is renewed")


def split(steps):
    """steps per source: by the rule that gave the targets"""
    parts = []
    for s in steps:
        if not parts or parts[-1][-1][6] is not s[6]:
            parts.append([])
        parts[-1].append(s)
    return parts


@st.composite
def clones(draw, many=False):
    def src():
        if draw(st.integers(0, 2)):
            return draw(st.sampled_from(SHIPPED))
        case = draw(gen.ca_spec(classes=["CCA"], channels=(1,), internals=(1,), dtypes=("f32",),
                                pads=("circular",), radii=st.integers(1, 6)))
        case["nbhd"] = case["nbhd"][:1]
        case["dots"] = draw(st.booleans())
        return case
    n = draw(st.integers(2, 3)) if many else 1
    sources = [src() for _ in range(n)]
    if many:
        seen, kept = set(), []
        for s in sources:
            if not isinstance(s, str) or s not in seen:
                kept.append(s)
            if isinstance(s, str):
                seen.add(s)
        sources = kept
    hidden = draw(st.one_of(st.integers(1, 24), st.integers(1, 24), st.integers(40, 100)))
    return {"sources": sources, "as_list": draw(st.booleans()), "steps": draw(st.integers(1, 9)),
            "iterations": draw(st.sampled_from([1, 1, 2, 3])), "hidden": hidden,
            "max_hidden": draw(st.sampled_from([hidden, hidden + 3, 128])), "batch": draw(st.integers(1, 3)),
            "lr": draw(st.sampled_from([1e-3, 0.02, 0.1, 0.1, 0.5])),
            "threshold": 1e-9 if many else draw(st.sampled_from([1e-9, 1e-9, 1e-2, 0.5, 0.9, 1.5])),
            "save_name": draw(st.sampled_from(["verif_ca_config.pt", "ca_config_verif_nca.pt"] +
                                              ([] if many else ["verif_nca.pt"]))),
            "verbose": draw(st.booleans()), "stale": draw(st.booleans()), "again": draw(st.integers(0, 3)) == 0}


FACETS = [
    Facet("clone", clones(), clone, 60, 800),
    Facet("clone2", clones(), clone, 60, 800),
    Facet("several", clones(many=True), clone, 18, 400),
]
