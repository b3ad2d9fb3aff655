"""C22: the glider reward against an accounting of the trajectory in float64."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random universes and patterns, and scripted trajectories (blobs travelling either way, wrapping "
        "around, growing, stalling, vanishing); non-trivial when at least two displacements were scored")
ASSUMPTIONS = ["one pattern per evaluation (batch size one), as every caller does",
               "trajectories within 1e-3 of a wrap threshold are not judged",
               "the centre of mass has the code's guard against empty grids: sum(y a) / (1e-6 + sum(a))"]


def account(states, radius, limit):
    """reward, number of steps and final mean of a trajectory: states[0] is the given
    pattern, states[1:] what the CA makes of it; None when rounding decides"""
    dim = states[0].shape[-1]
    y = np.arange(dim) / radius
    span = (dim - 1) / radius
    reward, before, mean0, tol, scored, wraps = 0.0, 0.0, states[0].astype(float).mean(), 0.0, 0, 0
    n = 0
    for n in range(1, limit + 1):
        a = states[n].astype(float)
        centre = (y * a).sum() / (1e-6 + a.sum())
        growth = abs(1 - a.mean() / (mean0 + 1e-6))
        mean0 = a.mean()
        if before != 0:
            move = centre - before
            if abs(before - (span - 2)) < 1e-3 or abs(centre - 2) < 1e-3:
                return None
            if before > span - 2 and centre < 2:
                move += span
                wraps += 1
            reward += move
            scored += 1
        reward -= growth
        before = centre
        tol += span + 1 + growth + a.sum() * 1e-3
        d = states[n] - states[n - 1]
        if states[n].max() == 0 or d.max() <= np.float32(1e-5):
            break
        if abs(float(d.max()) - 1e-5) < 1e-7:
            return None
    return reward, n, states[n].astype(float).mean(), tol, scored, wraps


def wrapper(case, ca_fn, **kw):
    from yuca.wrappers.glider_wrapper import GliderWrapper
    return GliderWrapper(ca_fn=ca_fn, dim=case["dim"], ca_steps=case["steps"], batch_size=1,
                         external_channels=case["E"], kernel_radius=kw.pop("kernel_radius", 3), **kw)


def judge(env, pattern, states, radius, limit, rec, times=2):
    truth = account(states, radius, limit)
    if truth is None:
        rec.mark_trivial()
        rec.label("rounding")
        return None
    reward, n, mean, tol, scored, wraps = truth
    given = pattern.clone()
    calls = []
    hook = env.ca.register_forward_hook(lambda m, i, o: calls.append(1))
    unit = 2e-5 if pattern.dtype == torch.float32 else 1e-9
    for _ in range(times):
        calls.clear()
        _, got, _, info = env.step(pattern)
        expect(torch.equal(pattern, given), "the given pattern was modified")
        if calls:
            expect(len(calls) == n, f"{len(calls)} steps of the CA, expected {n} of at most {limit}")
        expect(abs(float(got) - reward) <= unit * tol + 1e-6,
               f"reward {float(got)}, displacement minus growth is {reward} ({n} steps, {wraps} wraps)")
        expect(abs(float(info["active_grid"]) - mean) <= 1e-5 * (1e-3 + mean),
               f"activity {float(info['active_grid'])}, mean of the last grid {mean}")
    hook.remove()
    rec.label("wraps" if wraps else "no wrap", "stops early" if n < limit else "all steps")
    if scored < 2:
        rec.mark_trivial()
    return n


def universes(case, rec):
    """real universes"""
    ca = gen.make_ca(case)
    config = dict(dtype=case["dtype"])
    env = wrapper(case, gen.classes()[case["cls"]])
    env.ca = ca
    if hasattr(env, "init_displacement_grid"):
        env.init_displacement_grid()        # the environment's CA has another radius now
    twin = gen.make_ca(case)
    g = gen.grid_array(dict(case["grid"], shape=[1, case["E"], case["dim"], case["dim"]]))
    pattern = torch.tensor(g).to(torch.get_default_dtype())
    states = [pattern.numpy().copy()]
    twin.reset()
    with torch.no_grad():
        x = pattern.clone()
        for _ in range(case["steps"]):
            x = twin(x)
            states.append(x.numpy().copy())
    n = judge(env, pattern, states, case["nbhd"][0]["radius"], case["steps"], rec,
              times=1 if case["cls"] == "RandomStepCA" else 2)
    rec.label(case["cls"], config["dtype"])
    if n is not None and case["cls"] not in ("MetaCA", "CODE"):
        want = n * case["dt"]
        expect(abs(float(ca.t_count) - want) <= 1e-4 * (1 + want),
               f"the clock shows {float(ca.t_count)} after {n} steps of {case['dt']}")


def script(case):
    """a trajectory: a blob with a position (columns) and mass per step"""
    dim, e = case["dim"], case["E"]
    rng = np.random.RandomState(case["rng"])
    w, h = case["width"], case["height"]
    blob = 0.2 + 0.8 * rng.rand(1, e, h, w)
    states, at, scale = [], float(case["start"]), 1.0
    kind = np.float64 if case["dtype"] == "f64" else np.float32
    for move, mass in [(0, 1.0)] + [tuple(m) for m in case["moves"]]:
        at, scale = (at + move) % dim, min(scale * mass, 1.0)
        g = np.zeros((1, e, dim, dim))
        g[:, :, :h, :w] = blob * scale
        states.append(np.roll(g, (case["row"], int(at)), axis=(2, 3)).astype(kind))
    return states


def scripted(case, rec):
    from yuca.ca.continuous import CCA
    torch.set_default_dtype(torch.float64 if case["dtype"] == "f64" else torch.float32)
    states = script(case)

    class Script(CCA):

        def reset(self):
            super().reset()
            self.at = 0

        def forward(self, universe):
            self.at += 1
            return torch.tensor(states[min(self.at, len(states) - 1)])

    env = wrapper(case, Script, kernel_radius=case["radius"])
    # earlier evaluations leave no trace
    env.ca.at = 3
    judge(env, torch.tensor(states[0]), states, case["radius"], case["steps"], rec)
    rec.label(f"E{case['E']}", case["dtype"])


@st.composite
def real(draw):
    case = draw(gen.ca_spec(internals=(1,), channels=(1, 1, 2, 4), ident=False, radii=st.integers(1, 4),
                            classes=["CCA", "CCA", "Lenia", "Lenia", "CODE", "MetaCA", "NCA", "RxnDfn"]))
    case = gen.single(case)
    low = max(6, gen.min_dim(case))
    case["dim"] = draw(st.integers(low, 20))
    case["grid"] = {"kind": draw(st.sampled_from(["rand", "sparse", "blob", "ramp", "const"])),
                    "seed": draw(gen.seeds), "value": draw(gen.num(0, 1, 20))}
    case["steps"] = draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 90)))
    return case


@st.composite
def scripts(draw):
    dim = draw(st.integers(8, 40))
    steps = draw(st.one_of(st.integers(1, 24), st.integers(1, 24), st.integers(25, 90)))
    pace = draw(st.integers(-5, 5))
    moves = []
    for _ in range(steps):
        kind = draw(st.sampled_from(["pace", "pace", "pace", "any", "grow", "grow", "still", "vanish"]
                                    if draw(st.integers(0, 3)) == 0 else ["pace", "pace", "any", "grow"]))
        move, mass = pace, 1.0
        if kind == "any":
            move = draw(st.integers(-dim, dim))
        elif kind == "grow":
            mass = draw(gen.num(0.5, 1.5))
        elif kind == "still":
            move = 0
        elif kind == "vanish":
            mass = 0.0
        moves.append([move, mass])
    return {"dim": dim, "E": draw(st.integers(1, 4)), "steps": steps, "moves": moves,
            "width": draw(st.integers(1, max(1, dim // 4))), "height": draw(st.integers(1, dim)),
            "start": draw(st.integers(0, dim - 1)), "row": draw(st.integers(0, dim - 1)),
            "radius": draw(st.integers(1, 6)), "dtype": draw(st.sampled_from(["f32", "f64"])),
            "rng": draw(gen.seeds)}


FACETS = [
    Facet("universes", real(), universes, 250, 5000),
    Facet("scripted", scripts(), scripted, 400, 8000),
]
