"""C33: copies and state dictionaries of CAs."""
import copy
import io
import os
import pickle

import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random CA class, configuration and history of setters and steps before and after the copy; non-trivial when "
        "the copied rule moves a probe grid")
ASSUMPTIONS = ["copies are taken without gradients in flight (as the library itself steps)",
               "a state dictionary is loaded into an instance of the same architecture, function types and step size"]


def copied(ca, how):
    if how == "deepcopy":
        return copy.deepcopy(ca)
    if how == "pickle":
        return pickle.loads(pickle.dumps(ca))
    path = os.path.join(os.getcwd(), "ca.pt")
    torch.save(ca, path)
    try:
        return torch.load(path)
    finally:
        os.remove(path)


def probe(case, rng):
    side = max(7, gen.min_dim(case) + 1)
    dt = torch.float64 if case["dtype"] == "f64" else torch.float32
    return torch.tensor(rng.rand(2, case.get("E", 2), side, side + 1)).to(dt)


def follow(a, b, grid, steps, what):
    """a copy goes on as the original does, dynamic state included"""
    moved, start = False, grid
    x = y = grid
    with torch.no_grad():
        for n in range(steps):
            np.random.seed(n)
            x = a(x)
            np.random.seed(n)
            y = b(y)
            expect(torch.equal(x, y), f"{what}: step {n} differs by {float((x - y).abs().max()):.3g}")
            expect(float(a.get_dt()) == float(b.get_dt()), f"{what}: step sizes {a.get_dt()} and {b.get_dt()}")
            expect(abs(float(getattr(a, "t_count", 0)) - float(getattr(b, "t_count", 0))) < 1e-9,
                   f"{what}: the clocks differ")
            moved = moved or float((x - start).abs().max()) > 1e-4
    return moved


def same_state(a, b, what):
    p, q = np.asarray(a.get_params(), float), np.asarray(b.get_params(), float)
    expect(p.shape == q.shape and np.array_equal(p, q), f"{what}: the parameters differ")
    expect(float(a.get_dt()) == float(b.get_dt()) and a.get_kernel_radius() == b.get_kernel_radius(),
           f"{what}: step size or radius differ")


def twins(case, rec):
    rng = np.random.RandomState(case["gseed"])
    a, spec = gen.make_ca(case), case
    plain = case["cls"] not in ("CODE", "RandomStepCA", "MetaCA")
    grid = probe(case, rng)
    for op in case["before"]:
        gen.apply_setter(a, op, grid)
        spec = op["after"]
    with torch.no_grad():
        for _ in range(case["warm"]):
            grid = a(grid)
    b = copied(a, case["how"])
    same_state(a, b, f"{case['how']} copy")
    grid = probe(spec, rng)
    live = follow(a, b, grid, 2, f"{case['how']} copy")
    specs = {0: spec, 1: spec}
    for who, op in case["after"]:
        gen.apply_setter((a, b)[who], op, grid)
        specs[who] = op["after"]
        if plain:
            for i, ca in enumerate((a, b)):
                gen.check_step(ca, specs[i], probe(specs[i], rng),
                               f"{'copy' if i else 'original'} after {op['op']} on the {'copy' if who else 'original'}")
        for i, ca in enumerate((a, b)):
            p, q = np.asarray(ca.get_params(), float), gen.vector(specs[i])
            expect(p.shape == q.shape and np.abs(p - q).max(initial=0) < 1e-5 * (1 + np.abs(q).max(initial=0)),
                   f"parameters of the {'copy' if i else 'original'} after {op['op']} on the "
                   f"{'copy' if who else 'original'}")
    rec.label(case["cls"], case["how"], *[op["op"] for op in case["before"]], *[op["op"] for _, op in case["after"]])
    if not live:
        rec.mark_trivial()


def state(case, rec):
    """a state dictionary carries weights, function parameters and kernels"""
    rng = np.random.RandomState(case["gseed"])
    a, b = gen.make_ca(case), gen.make_ca(case["other"])
    grid = probe(case, rng)
    if case["file"]:
        memory = io.BytesIO()
        torch.save(a.state_dict(), memory)
        memory.seek(0)
        given = torch.load(memory)
    else:
        given = copy.deepcopy(a.state_dict())
    b.load_state_dict(given)
    b.eval()
    b.set_dt(a.get_dt())
    live = gen.same_step(a, b, grid, "state dictionary loaded into an equal architecture")
    differ = float((gen.make_ca(case["other"])(grid) - a(grid)).abs().max()) > 1e-5
    # the instance keeps its own values
    for v in given.values():
        v += 1.0
    gen.same_step(a, b, grid, "after the dictionary was changed by its owner")
    rec.label(case["cls"], "file" if case["file"] else "memory")
    if not (live and differ):
        rec.mark_trivial()


@st.composite
def histories(draw, classes, **kw):
    case = gen.single(draw(gen.ca_spec(**dict(gen.CONFIGURABLE, classes=classes, **kw))))
    fixed = case["cls"] in ("CODE", "RandomStepCA")
    kinds = ["radius", "kernel", "params", "step"] + ([] if fixed else ["dt"])
    now, before, after = case, [], []
    for _ in range(draw(st.integers(0, 3))):
        before.append(draw(gen.setter(now, kinds=kinds)))
        now = before[-1]["after"]
    ends = [now, now]
    for _ in range(draw(st.integers(1, 3))):
        who = draw(st.integers(0, 1))
        after.append([who, draw(gen.setter(ends[who], kinds=kinds))])
        ends[who] = after[-1][1]["after"]
    return dict(case, before=before, after=after, how=draw(st.sampled_from(["deepcopy", "pickle", "file"])),
                warm=draw(st.integers(0, 3)), gseed=draw(gen.seeds))


@st.composite
def pairs(draw, **kw):
    case = draw(gen.ca_spec(**kw))
    if case["cls"] == "NCA":
        case["nbhd"] = case["nbhd"][:1]
    other = draw(gen.rewritten(case))
    return dict(case, other=other, file=draw(st.booleans()), gseed=draw(gen.seeds))


FACETS = [
    Facet("functional", histories(["CCA", "CCA", "Lenia"]), twins, 50, 1000),
    Facet("variants", histories(["CODE", "RandomStepCA", "MetaCA"]), twins, 40, 800),
    Facet("neural", histories(["NCA"]), twins, 40, 800),
    Facet("reaction", histories(["RxnDfn"]), twins, 25, 500),
    Facet("neural state", pairs(classes=["NCA"], radii=st.integers(1, 4)), state, 40, 800),
    Facet("functional state", pairs(classes=["CCA", "CCA", "MetaCA"], radii=st.integers(1, 4)), state, 50, 1000),
]
