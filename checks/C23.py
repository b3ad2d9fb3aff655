"""C23: the survival and prediction environments against a replay of what they ran."""
import contextlib

import numpy as np
import torch
from hypothesis import strategies as st

import evo
import gen
from harness import Facet, expect

RULE = ("random CA classes, rules under which some grids survive and some do not, sizes, step limits, "
        "seeds and precisions; non-trivial when the grids of a batch have different fates (or, for the "
        "predictor, when its accuracy is neither 0 nor 1 or the classes are mixed)")
ASSUMPTIONS = ["besides real rules, a scripted CA (a subclass whose forward fades, keeps or flickers samples) is used "
               "to get batches of mixed fates",
               "the grids an environment runs are seen through a forward hook on its CA",
               "activities within rounding of the 1e-5 thresholds are not judged"]


def ca_class(case):
    from yuca.ca.continuous import CCA
    if case["cls"] != "Scripted":
        return gen.classes()[case["cls"]]

    class Scripted(CCA):
        """the centre cell of a sample decides whether it fades away, rests or flickers"""

        def forward(self, universe):
            c = universe.shape[-1] // 2
            x = universe[:, 0, c, c].reshape(-1, 1, 1, 1)
            fading, resting = x < case["fade"], x < case["rest"]
            flicker = universe.clone()
            cell, amp = flicker[:, -1, 0, 0], case["amplitude"]      # of one channel only
            flicker[:, -1, 0, 0] = torch.where(cell + amp <= 1, cell + amp, cell - amp)
            return torch.where(fading, torch.clamp(universe - case["loss"], case["floor"], 1),
                               torch.where(resting, universe, flicker))
    return Scripted


class Watch:
    """inputs and outputs of every step of a CA"""

    def __init__(self, ca):
        self.calls = []
        self.hook = ca.register_forward_hook(lambda m, i, o: self.calls.append((i[0], o, i[0].clone(), o.clone())))

    def segments(self):
        out = []
        for a, b, ca, cb in self.calls:
            if out and out[-1][-1][1] is a:
                out[-1].append((a, b, ca, cb))
            else:
                out.append([(a, b, ca, cb)])
        return [[(ca, cb) for _, _, ca, cb in s] for s in out]


def make(case, env_fn, **kw):
    gen.set_dtype(dict(case, cls="CCA"))
    args = dict(ca_fn=ca_class(case), dim=case["dim"], ca_steps=case["steps"],
                batch_size=case["batch"], prediction_mode=case["mode"], external_channels=case["E"],
                kernel_radius=case["radius"], hidden_channels=3, alive_threshold=0.3,
                internal_channels=case["E"] if case["cls"] in ("NCA", "RxnDfn") else 1, **kw)
    torch.manual_seed(case["rng"])
    np.random.seed(case["rng"])
    env = env_fn(**args)
    if case["cls"] in ("CCA", "Lenia", "MetaCA", "NCA"):
        env.ca.set_dt(case["dt"])
    env.first_rule = np.array(env.ca.get_params(), float).copy()
    return env


def action(case, env, salt=0):
    """a rule of the environment's CA"""
    rng = np.random.RandomState(case["rng"] + salt)
    v = env.first_rule.copy()
    if case["cls"] == "RxnDfn":
        return v * (0.9 + 0.2 * rng.rand(*v.shape))
    if case["cls"] == "NCA":
        return v * (0.5 + rng.rand(*v.shape))
    n = 2 if case["cls"] == "Lenia" else 4
    v[:n] = np.array([case["mu"], case["sigma"]] * 2)[:n] * (0.8 + 0.4 * rng.rand(n))
    if case["odd"]:             # rules have no bounds
        v[rng.randint(n)] *= [-1.0, 9.0][case["odd"] - 1]
    return v


def seeded(seed):
    from yuca.utils import seed_all
    seed_all(seed)


def simple(case, rec):
    env_fn = evo.wrappers()["SimpleHaltingWrapper"]
    env = make(case, env_fn)
    for salt in range(case["before"]):           # earlier evaluations leave no trace
        env.reset()
        env.step(action(case, env, salt + 1))
    act = action(case, env)
    given = act.copy()
    watch = Watch(env.ca)
    seeded(case["seed"])
    env.reset()
    env.eval()
    _, reward, done, info = env.step(act)
    watch.hook.remove()
    expect(np.array_equal(act, given), "the action was modified")
    got = np.array(env.ca.get_params(), float)
    expect(got.shape == act.shape and np.allclose(got, act, rtol=1e-6, atol=1e-7),
           "the CA's rule is not the action afterwards")
    dim, b, half = case["dim"], case["batch"], case["dim"] // 4
    expect(len(watch.calls) > 0, "the CA was not run")
    segments = watch.segments()
    expect(len(segments) == 1, f"the CA was run from {len(segments)} starting grids")
    start = segments[0][0][0]
    expect(tuple(start.shape) == (b, env.ca.external_channels, dim, dim), f"starting grid of shape {tuple(start.shape)}")
    g = gen.arr(start)
    expect(g.min() >= 0 and g.max() <= 1, "starting grid out of range")
    inner = g[:, :, half:dim - half, half:dim - half]
    border = g.copy()
    border[:, :, half:dim - half, half:dim - half] = 0
    expect(border.max() == 0, "the starting grid is not zero on its border")
    expect(len(np.unique(inner)) > 0.9 * inner.size, "the centre of the starting grid is not random")
    # replay in a CA of its own
    twin = make(case, env_fn).ca
    twin.set_params(action(case, env))
    twin.reset()
    twin.eval()
    seeded(case["seed"])
    x, n = start.clone(), 0
    with torch.no_grad():
        for n in range(1, case["steps"] + 1):
            x = twin(x)
            if float(x.max()) <= 0:
                break
    expect(len(watch.calls) == n, f"{len(watch.calls)} steps, expected {n} of at most {case['steps']}")
    expect(torch.equal(segments[0][-1][1], x), "the grids do not follow the given rule")
    alive = (gen.arr(x).reshape(b, -1).max(axis=1) > 0)
    expect(abs(float(info["active_grid"]) - alive.mean()) < 1e-6,
           f"{float(info['active_grid'])} of the grids reported active, {alive.mean()} are")
    expect(abs(float(reward) + abs(0.5001 - alive.mean())) < 1e-6,
           f"reward {float(reward)} for {alive.mean()} active grids")
    expect(not done, "done")
    # reproducible
    if case["again"]:
        other = make(dict(case, rng=case["rng"]), env_fn)
        seeded(case["seed"])
        other.reset()
        _, r2, _, i2 = other.step(action(case, env))
        expect(float(r2) == float(reward) and float(i2["active_grid"]) == float(info["active_grid"]),
               "a second evaluation from the same seed differs")
        watch = Watch(other.ca)
        seeded(case["seed"] + 1)
        other.step(action(case, env))
        expect(not torch.equal(watch.calls[0][2], start), "another seed gives the same starting grid")
    rec.label(case["cls"], "mixed" if 0 < alive.sum() < b else "alive" if alive.all() else "dead",
              "early" if n < case["steps"] else "full")
    if alive.all() or not alive.any():
        rec.mark_trivial()


def fates(case, final, after):
    """targets of a batch under a prediction mode; None when rounding decides"""
    b = final.shape[0]
    peak = np.abs(final).reshape(b, -1).max(axis=1)
    move = np.abs(after - final).reshape(b, -1).max(axis=1)
    used = {0: [peak], 1: [move], 2: [peak, move]}[case["mode"]]
    for v in used:
        if (np.abs(v - 1e-5) < 1e-7).any():
            return None
    return np.stack([(v > 1e-5).astype(float) for v in used], axis=1)


@contextlib.contextmanager
def losses(log):
    """the predictions and targets of every loss"""
    import torch.nn.functional as F
    inner = F.binary_cross_entropy

    def spy(input, target, *a, **k):
        log.append((gen.arr(input).copy(), gen.arr(target).copy(), torch.is_grad_enabled()))
        return inner(input, target, *a, **k)
    F.binary_cross_entropy = spy
    try:
        yield
    finally:
        F.binary_cross_entropy = inner


def training_targets(case, run):
    """fates of a training run, judged by mean activity (for mode 2: by the peak of the grid);
    None when rounding decides"""
    b = run[0][0].shape[0]
    final, after = gen.arr(run[-1][0]), gen.arr(run[-1][1])
    mean = final.reshape(b, -1).mean(axis=1)
    peak = final.reshape(b, -1).max(axis=1)
    move = np.abs(after - final).reshape(b, -1).mean(axis=1)
    used = {0: [(mean, 1e-4)], 1: [(move, 1e-4)], 2: [(peak, 1e-5), (move, 1e-4)]}[case["mode"]]
    if any((np.abs(v - t) < 0.01 * t).any() for v, t in used):
        return None
    return np.stack([(v > t).astype(float) for v, t in used], axis=1)


def predictive(case, rec):
    env_fn = evo.wrappers()["HaltingWrapper"]
    env = make(case, env_fn, lr=1e-2, dropout=0.125)
    act = action(case, env)
    given = act.copy()
    results = []
    for turn in range(2 if case["again"] else 1):
        if turn:
            env.step(action(case, env, 5))
        watch = Watch(env.ca)
        seeded(case["seed"])
        log = []
        with losses(log):
            env.reset()
            _, reward, done, info = env.step(act)
        watch.hook.remove()
        results.append((float(reward), float(info["active_grid"])))
    expect(len(set(results)) == 1, f"evaluations from one seed differ: {results}")
    expect(np.array_equal(act, given), "the action was modified")
    got = np.array(env.ca.get_params(), float)
    expect(got.shape == act.shape and np.allclose(got, act, rtol=1e-6, atol=1e-7),
           "the CA's rule is not the action afterwards")
    reward, active = results[-1]
    expect(-1 <= reward <= 0 and 0 <= active <= 1, f"reward {reward}, activity {active}")
    runs = watch.segments()
    expect(len(runs) == 9, f"{len(runs) - 1} runs to train the predictor on, expected 8")
    for run in runs[:-1]:
        expect(run[0][0].shape[0] == case["batch"] and len(run) >= 9, "a training run of another size")
    expect(len(set(float(run[0][0].sum()) for run in runs)) == 9, "runs from the same starting grids")
    if case["cls"] not in ("Scripted", "RandomStepCA"):
        # every run, the scored one too, follows the rule from its own starting grid
        twin = make(case, env_fn).ca
        twin.set_params(action(case, env))
        twin.train(env.ca.training)
        if case["cls"] != "NCA" or not twin.training:
            for n, run in enumerate(runs):
                twin.reset()
                x = run[0][0].clone()
                with torch.no_grad():
                    for step, (_, after) in enumerate(run):
                        x = twin(x)
                        expect(torch.equal(x, after), f"run {n} does not follow the given rule from its starting "
                                                      f"grid: step {step} differs by {float((x - after).abs().max())}")
    if len(log) in (8, 9):
        for n, (run, (pred, target, _)) in enumerate(zip(runs[:-1], log)):
            want = training_targets(case, run)
            expect(want is None or (target.shape == want.shape and np.array_equal(target, want)),
                   f"the predictor is trained towards {target.tolist()} in run {n}, the grids' fates are "
                   f"{None if want is None else want.tolist()}")
        expect(any(not np.array_equal(p, q) for (p, *_), (q, *_) in zip(log, log[1:])), "predictions never change")
    else:
        rec.label("training not observed")
    last = runs[-1]
    expect(len(last) >= 10, f"the scored run has {len(last)} steps")
    b = case["batch"]
    expect(last[0][0].shape[0] == b, "batch of the scored run")
    final, after = gen.arr(last[-1][0]), gen.arr(last[-1][1])
    ran = len(last) - 9                     # 8 to begin with, one probe
    emptied = [i for i in range(8, len(last) - 1) if float(last[i][1].max()) == 0]
    expect(ran == case["steps"] or (emptied and emptied[0] == len(last) - 2),
           f"{ran} steps of {case['steps']} were run, grids were empty after {emptied[:1]}")
    expect(not emptied or emptied[0] >= len(last) - 2, "the scored run goes on after all grids are empty")
    target = fates(case, final, after)
    if target is None:
        rec.mark_trivial()
        return
    with torch.no_grad():
        pred = gen.arr(env.forward(last[8][0]))
    expect(pred.shape == target.shape, f"predictions of shape {pred.shape}, targets {target.shape}")
    if (np.abs(pred - 0.5) < 1e-5).any():
        rec.mark_trivial()
        return
    accuracy = (np.clip(np.round(pred), 0, 1) == target).mean()
    expect(abs(reward + accuracy) < 1e-6, f"reward {reward}, {accuracy} of the predictions are right")
    expect(abs(active - target.mean()) < 1e-6, f"activity {active}, targets' mean {target.mean()}")
    rec.label(case["cls"], f"mode{case['mode']}", f"accuracy{round(accuracy, 1)}")
    if accuracy in (0.0, 1.0) and len(np.unique(target)) == 1:
        rec.mark_trivial()


def accuracy(case, rec):
    """the accuracy measure itself, on predictions and targets of its own"""
    env = evo.wrappers()["HaltingWrapper"](dim=16, ca_steps=1, prediction_mode=case["mode"])
    rng = np.random.RandomState(case["rng"])
    shape = (case["batch"], 2 if case["mode"] == 2 else 1)
    target = (rng.rand(*shape) < case["mu"] * 3).astype(np.float32)
    pred = rng.rand(*shape).astype(np.float32)
    right = sum(int((p > 0.5) == (t > 0.5)) for p, t in zip(pred.ravel(), target.ravel()))
    got = float(env.get_accuracy(torch.tensor(pred), torch.tensor(target)))
    expect(abs(got - right / pred.size) < 1e-6, f"accuracy {got}, {right} of {pred.size} are right")
    if right in (0, pred.size):
        rec.mark_trivial()


def control(case, rec):
    """the random environment is a control: any score, whatever the rule"""
    from yuca.wrappers.random_wrapper import RandomWrapper
    env = make(case, RandomWrapper)
    before = np.array(env.ca.get_params(), float)
    watch = Watch(env.ca)
    _, reward, done, info = env.step(action(case, env))
    expect(0 <= float(reward) < 1 and float(info["active_grid"]) == -1, "score of the random environment")
    expect(not watch.calls and np.array_equal(np.array(env.ca.get_params(), float), before),
           "the random environment ran or changed its CA")


@st.composite
def cases(draw, low=4, high=16, steps=(1, 30), classes=("CCA", "CCA", "Scripted", "Scripted", "Scripted", "Lenia", "Lenia", "Lenia", "CODE", "RandomStepCA", "MetaCA", "NCA", "RxnDfn")):
    cls = draw(st.sampled_from(classes))
    e = 2 if cls == "RxnDfn" else draw(st.sampled_from([1, 1, 2, 4]))
    return {"cls": cls, "E": e, "dim": draw(st.integers(low, high)), "steps": draw(st.integers(*steps)),
            "batch": draw(st.integers(2, 10)), "mode": draw(st.sampled_from([2, 1, 0])),
            "radius": draw(st.integers(1, min(3, low - 1))), "dt": draw(st.sampled_from([0.3, 0.6, 1.0])),
            "mu": draw(gen.num(0.1, 0.32)), "sigma": draw(gen.num(0.015, 0.06)),
            "fade": draw(st.sampled_from([0.3, 0.4, 0.5, 0.6, 0.7])),
            "rest": draw(st.sampled_from([0.3, 0.5, 0.7, 0.8])), "loss": draw(gen.num(0.1, 0.5)),
            "odd": draw(st.sampled_from([0, 0, 1, 2])), "amplitude": draw(st.sampled_from([1.0, 1.0, 0.3, 0.1, 0.01, 1.5e-5, 6e-6])),
            "floor": draw(st.sampled_from([0.0, 0.0, 0.0, 6e-6, 1.5e-5, 5e-5, 3e-4])),
            "before": draw(st.integers(0, 2)), "again": draw(st.booleans()),
            "dtype": draw(st.sampled_from(["f32", "f32", "f64"])),
            "seed": draw(st.integers(0, 9999)), "rng": draw(st.integers(0, 9999))}


FACETS = [
    Facet("simple", cases(), simple, 300, 5000),
    Facet("predictive", cases(16, 20, (1, 14), ("CCA", "Scripted", "Scripted", "Scripted", "Scripted", "Scripted", "Lenia", "CODE", "MetaCA", "NCA", "RxnDfn")),
          predictive, 40, 600),
    Facet("accuracy", cases(), accuracy, 100, 1000),
    Facet("control", cases(), control, 20, 200),
]
