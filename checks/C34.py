"""C34: gradients through CA steps against difference quotients of the steps themselves."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random CA class, configuration, grid and weighting of the output cells, in double precision; non-trivial when "
        "the directional derivative is larger than its rounding")
ASSUMPTIONS = ["double precision; evaluation mode", "judged where the difference quotients to the left and to the right "
               "agree, i.e. away from kinks (clamping, ReLU, thresholds)"]
H = 1e-6


def slopes(f, scale):
    """central quotient and an error bound, None at a kink"""
    mid, right, left = f(0.0), f(H), f(-H)
    far = (f(2 * H) - f(-2 * H)) / (4 * H)
    a, b = (right - mid) / H, (mid - left) / H
    central = (right - left) / (2 * H)
    noise = 1e-15 * scale / H * 2000
    if abs(a - b) > 1e-3 * (abs(central) + 1e-2) + noise or abs(far - central) > 1e-4 * abs(central) + noise:
        return None
    return central, abs(far - central) * 4 + noise + 1e-3 * abs(central)


def scalar(case, ca, weight, what, rate):
    def value(grid):
        np.random.seed(7)
        ca.reset()
        out = ca(grid) if what == "step" else ca.update_helper(grid)
        if what == "two steps":
            out = ca(grid + 0.1 * out)
        return (out * weight).sum()
    return value


def by_grid(case, rec):
    torch.set_default_dtype(torch.float64)
    ca = gen.make_ca(case)
    if case["cls"] == "NCA" and case["grads_on"]:
        ca.yes_grad()
    rng = np.random.RandomState(case["gseed"])
    grid = gen.to_grid(case["grid"], "f64") * 0.9 + 0.05
    with torch.no_grad():
        ca.reset()
        np.random.seed(7)
        weight = torch.tensor(rng.randn(*ca(grid).shape))
    f = scalar(case, ca, weight, case["what"], None)
    d = torch.tensor(rng.randn(*grid.shape))
    x = grid.clone().requires_grad_(True)
    y = f(x)
    expect(y.requires_grad, "no gradient reaches the grid")
    y.backward()
    expect(x.grad is not None and bool(torch.isfinite(x.grad).all()), "the gradient is not finite")
    expect(torch.equal(x.detach(), grid), "the grid was changed")
    got = float((x.grad * d).sum())
    with torch.no_grad():
        want = slopes(lambda h: float(f(grid + h * d)), float(weight.abs().sum()))
    if want is None:
        rec.label("kink")
        return rec.mark_trivial()
    expect(abs(got - want[0]) <= want[1], f"derivative {got:.8g} along a direction of the grid, the {case['what']} "
           f"changes at {want[0]:.8g} +- {want[1]:.1g}")
    rec.label(case["cls"], case["what"])
    if abs(want[0]) < 10 * want[1]:
        rec.mark_trivial()


def by_weights(case, rec):
    torch.set_default_dtype(torch.float64)
    ca, twin = gen.make_ca(case), gen.make_ca(case)
    rng = np.random.RandomState(case["gseed"])
    grid = gen.to_grid(case["grid"], "f64") * 0.9 + 0.05
    before = np.array(ca.get_params(), float)
    fixed = {k: v.clone() for k, v in ca.named_parameters() if not k.startswith("weights_layer")}
    with torch.no_grad():
        plain = ca(grid)
    expect(not ca(grid).requires_grad, "gradients are tracked although they are turned off")
    for _ in range(case["flips"]):
        ca.yes_grad()
        ca.no_grad()
    expect(not ca(grid).requires_grad, "gradients are tracked after being turned off again")
    ca.yes_grad()
    expect(np.array_equal(before, np.array(ca.get_params(), float)), "turning gradients on changed the parameters")
    expect(torch.equal(ca(grid).detach(), plain), "turning gradients on changed the step")
    names = [k for k, _ in ca.weights_layer.named_parameters()]
    off = [k for k, p in ca.weights_layer.named_parameters() if not p.requires_grad]
    expect(not off, f"{off} of the weights {names} do not learn although gradients are on")
    expect(not any(p.requires_grad for k, p in ca.named_parameters() if k in fixed), "the kernels learn")
    weight = torch.tensor(rng.randn(*plain.shape))
    f = scalar(case, ca, weight, case["what"], None)
    f(grid).backward()
    live = False
    for k, p in ca.weights_layer.named_parameters():
        expect(p.grad is not None, f"no gradient for {k}")
        d = torch.tensor(rng.randn(*p.shape))
        got = float((p.grad * d).sum())

        def shifted(h):
            with torch.no_grad():
                keep = p.clone()
                p.add_(h * d)
                out = float(f(grid))
                p.copy_(keep)
            return out
        want = slopes(shifted, float(weight.abs().sum()))
        if want is None:
            rec.label("kink")
            continue
        expect(abs(got - want[0]) <= want[1], f"derivative {got:.8g} along a direction of {k}, the {case['what']} "
               f"changes at {want[0]:.8g} +- {want[1]:.1g}")
        live = live or abs(want[0]) > 10 * want[1]
    # one step of descent is what the parameter vector and the next step show
    rate = 1e-3 / (1e-3 + max(float(p.grad.abs().max()) for p in ca.weights_layer.parameters()))
    torch.optim.SGD(ca.weights_layer.parameters(), lr=rate).step()
    grads = np.concatenate([p.grad.numpy().ravel() for p in ca.weights_layer.parameters()])
    after = np.array(ca.get_params(), float)
    want = before.copy()
    want[:grads.size] -= rate * grads
    expect(after.shape == want.shape and np.abs(after - want).max() < 1e-9,
           "the parameter vector does not show the descent step")
    ca.no_grad()
    expect(not ca(grid).requires_grad, "gradients are tracked after being turned off")
    twin.set_params(after)
    twin.eval()
    gen.same_step(ca, twin, grid, "the vector after training in another instance", 1e-9)
    rec.label(case["act"], case["what"], f"E{case['E']}")
    if not live:
        rec.mark_trivial()


SMOOTH = ["Gaussian", "GaussianMixture", "DoubleGaussian", "SmoothIntervals", "Polynomial", "Identity"]


@st.composite
def cases(draw, whats=("step", "update", "two steps"), **kw):
    case = draw(gen.ca_and_grid(dtypes=("f64",), high=8, radii=st.integers(1, 3), kinds=["rand", "blob", "ramp"],
                                batches=(1, 2), **kw))
    if case["cls"] == "NCA":
        case["nbhd"] = case["nbhd"][:1]
    case.update(dtype="f64", what=draw(st.sampled_from(list(whats))), gseed=draw(gen.seeds),
                grads_on=draw(st.booleans()), flips=draw(st.integers(0, 2)))
    return case


FACETS = [
    Facet("functional grid", cases(classes=["CCA", "CCA", "Lenia"], functions=SMOOTH), by_grid, 80, 1500),
    Facet("variant grid", cases(classes=["MetaCA", "RandomStepCA"], functions=SMOOTH), by_grid, 40, 800),
    Facet("neural grid", cases(classes=["NCA"]), by_grid, 50, 800),
    Facet("reaction grid", cases(classes=["RxnDfn"]), by_grid, 30, 500),
    Facet("neural weights", cases(classes=["NCA"], whats=("step", "update", "two steps")), by_weights, 80, 1500),
]
