"""C08: parameter vectors round-trip and determine the rule."""
import numpy as np
import torch
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random CA class or agent, configuration and a sequence of valid parameter vectors written to "
        "it; after each write the vector is read back and the step compared with the model of the "
        "written parameters; non-trivial when a step changes the grid")
ASSUMPTIONS = ["single precision round trip: relative error 1e-6"]

KW = dict(channels=(1, 1, 1, 2, 4), internals=(1,), high=12, dtypes=("f32", "f32", "f64"), kinds=["rand", "blob", "ramp"],
          pads=("circular", "circular", "zeros"), batches=(1,))


@st.composite
def writes(draw, **kw):
    case = draw(gen.ca_and_grid(**{**KW, **kw}))
    if case["cls"] not in ("NCA", "RxnDfn"):
        # several channels are put together by hand and have no single config
        case["I"], case["gen"], case["per"] = 1, case["gen"][:1], case["per"][:1]
        case["nbhd"] = case["nbhd"][:1]
    case["writes"] = [draw(gen.rewritten(case)) for _ in range(draw(st.integers(1, 3)))]
    case["mutate"] = draw(st.booleans())
    small = (1e-4, 1e-3) if case["cls"] != "RxnDfn" else (1e-3,)
    case["nudge"] = draw(st.sampled_from((0, 0) + small))
    for w in case["writes"]:
        w.pop("grid", None)
    return case


def close(a, b, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    expect(a.shape == b.shape, f"{what}: {a.shape} instead of {b.shape} parameters")
    expect(np.abs(a - b).max(initial=0) <= 1e-6 * (1 + np.abs(b).max(initial=0)),
           f"{what}: parameters differ by {np.abs(a - b).max(initial=0):.3g}")


def stepping_case(case):
    """CODE and RandomStepCA choose their own step size: judged by update_helper"""
    return case["cls"] not in ("CODE", "RandomStepCA", "MetaCA")


def judge(ca, case, grid, what):
    if stepping_case(case):
        return gen.check_step(ca, case, grid, what)
    model = gen.make_model(dict(case, cls="CCA"))
    g = gen.arr(grid)
    if gen.near_threshold(case, g):
        return False
    parts = model.parts(g)
    tol = (model.step_tol(g, gen.DELTA[case["dtype"]] * case["E"], gen.BASE[case["dtype"]], dt=1.0))[1]
    with torch.no_grad():
        got = gen.arr(ca.update_helper(torch.tensor(parts[0]).to(grid.dtype)))
    want = model.update(*parts[1:])
    expect(gen.worst(got, want, tol) <= 0, f"{what}: update differs from the rule by {np.abs(got - want).max():.3g}")
    return bool(np.abs(want).max() > 1e-3)


def universes(case, rec):
    ca = gen.make_ca(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    close(ca.get_params(), gen.vector(case), "parameters of the loaded configuration")
    live = False
    for n, w in enumerate(case["writes"]):
        v = gen.vector(w)
        given = v.copy()
        ca.set_params(given)
        if hasattr(ca, "eval"):
            ca.eval()
        expect(np.array_equal(given, v), "set_params changed the vector it was given")
        if case["mutate"]:
            given += 0.25           # the caller's array is the caller's
        close(ca.get_params(), v, f"write {n}")
        close(ca.get_params(), v, f"second read after write {n}")
        live = judge(ca, w, grid, f"step after write {n}") or live
        got = ca.get_params()
        got += 1.0
        close(ca.get_params(), v, f"read after the result of an earlier read was changed (write {n})")
    # the same vector into an instance with another past
    fresh = gen.make_ca(case)
    last = gen.vector(case["writes"][-1])
    if case["nudge"]:
        # vectors close together are still different vectors
        last = last + case["nudge"] * (1 + np.arange(last.size) % 3) / 3
        ca.set_params(last.copy())
        ca.eval()
        close(ca.get_params(), last, "a write close to the one before")
    fresh.set_params(last.copy())
    fresh.eval()
    for a in (ca, fresh):
        if hasattr(a, "prev_dt"):
            a.prev_dt = 0.2
    gen.same_step(ca, fresh, grid, "same vector, other past", 1e-6 if case["dtype"] == "f32" else 1e-9)
    rec.label(case["cls"], f"writes{len(case['writes'])}")
    if not live:
        rec.mark_trivial()


def defaults(case, rec):
    """CAs as their constructor makes them, several channels included"""
    cls = gen.classes()[case["cls"]]
    kw = dict(internal_channels=case["I"], external_channels=case["E"], kernel_radius=case["r"],
              kernel_peaks=case["peaks"])
    if case["cls"] == "NCA":
        kw["hidden_channels"] = 5

    def make():
        np.random.seed(case["seed"])
        torch.manual_seed(case["seed"])
        ca = cls(**kw)
        ca.eval()
        ca.no_grad()
        return ca
    a, b = make(), make()
    p0 = np.array(a.get_params(), float)
    close(b.get_params(), p0, "two equal constructions")
    rng = np.random.RandomState(case["wseed"])
    vectors = [np.clip(p0 + 0.1 * rng.rand(p0.size), 0.01, 1.0) if case["cls"] != "NCA"
               else p0 + 0.3 * rng.rand(p0.size) for _ in range(3)]
    grid = torch.tensor(rng.rand(1, case["E"], 2 * case["r"] + 4, 2 * case["r"] + 3)).float()
    for v in vectors:
        a.set_params(v.copy())
        close(a.get_params(), v, "default-constructed instance")
    b.set_params(vectors[-1].copy())
    close(b.get_params(), vectors[-1], "default-constructed instance, one write")
    a.eval()
    b.eval()
    gen.same_step(a, b, grid, "same vector, other past", 1e-6)
    # the vector decides: back to the first one
    a.set_params(vectors[0].copy())
    c = make()
    c.set_params(vectors[0].copy())
    for x in (a, c):
        x.eval()
    live = gen.same_step(a, c, grid, "vector written again", 1e-6)
    rec.label(case["cls"], f"E{case['E']}I{case['I']}")
    if not live:
        rec.mark_trivial()


def agents(case, rec):
    from yuca.cppn import CPPN, CPPNPlus
    from yuca.params_agent import ParamsAgent
    rng = np.random.RandomState(case["seed"])
    kind = case["kind"]

    def make(n):
        torch.manual_seed(n)
        if kind == "ParamsAgent":
            return ParamsAgent(num_params=case["n"])
        kw = dict(dim=case["dim"], hidden_dim=case["hidden"], external_channels=case["channels"])
        if kind == "CPPNPlus":
            kw["ca_params"] = rng.rand(case["n"])
        return (CPPN if kind == "CPPN" else CPPNPlus)(**kw)

    def act(agent):
        out = agent.get_action()
        out = out if isinstance(out, tuple) else (out,)
        return [gen.arr(o) if isinstance(o, torch.Tensor) else np.array(o, float) for o in out]
    a, b = make(1), make(2)
    n = np.asarray(a.get_params()).size
    for k in range(case["writes"]):
        v = rng.randn(n) * case["scale"]
        a.set_params(v.copy())
        close(a.get_params(), v, f"{kind} write {k}")
        act(a)
        close(a.get_params(), v, f"{kind} after acting")
    b.set_params(v.copy())
    one, two, three = act(a), act(b), act(a)
    for x, y, z in zip(one, two, three):
        expect(x.shape == y.shape and np.abs(x - y).max(initial=0) <= 1e-6, f"{kind}: same vector, other action")
        expect(np.array_equal(x, z), f"{kind}: acting twice gives two actions")
    if kind in ("ParamsAgent", "CPPNPlus"):
        expect(np.abs(one[0] - v[-case["n"]:]).max(initial=0) <= 1e-6, f"{kind}: rule is not the vector's last part")
    rec.label(kind)


def filtered(case, rec):
    """the filtering agent: whatever is written, it acts with what it reads back"""
    from yuca.params_agent import ParamsAgent
    rng = np.random.RandomState(case["seed"])
    agent = ParamsAgent(num_params=case["n"], filter_params=True)
    for _ in range(case["writes"]):
        v = rng.randn(case["n"]) * case["scale"] * 10.0 ** rng.choice([0, 0, -1, -2, -3, -6], case["n"])
        agent.set_params(v.copy())
        want = np.clip(np.abs(v), 0.0001, 1.0)
        expect(np.allclose(agent.get_params(), want, rtol=1e-6, atol=0), "filtered parameters")
        expect(np.allclose(agent.get_action(), want, rtol=1e-6, atol=0), "filtered action")


FACETS = [
    Facet("functional", writes(classes=["CCA"]), universes, 180, 4000),
    Facet("lenia", writes(classes=["Lenia"]), universes, 80, 1500),
    Facet("variants", writes(classes=["CODE", "RandomStepCA", "MetaCA"]), universes, 90, 2000),
    Facet("neural", writes(classes=["NCA"]), universes, 120, 2500),
    Facet("reaction", writes(classes=["RxnDfn"]), universes, 60, 1200),
    Facet("defaults", st.fixed_dictionaries({
        "cls": st.sampled_from(["CCA", "CCA", "NCA", "Lenia", "CODE", "RandomStepCA", "MetaCA"]),
        "E": st.integers(1, 5), "I": st.integers(1, 6), "r": st.integers(2, 6),
        "peaks": st.integers(1, 4), "seed": gen.seeds, "wseed": gen.seeds}).map(
            lambda c: dict(c, I=c["E"]) if c["cls"] == "NCA" else c), defaults, 120, 2500),
    Facet("agents", st.fixed_dictionaries({
        "kind": st.sampled_from(["CPPN", "CPPNPlus", "ParamsAgent"]), "dim": st.integers(8, 20),
        "hidden": st.integers(1, 10), "channels": st.integers(1, 4), "n": st.one_of(st.integers(1, 9), st.integers(1, 60)),
        "writes": st.integers(1, 3), "scale": gen.num(0.1, 2), "seed": gen.seeds}), agents, 120, 2500),
    Facet("filtered", st.fixed_dictionaries({"n": st.integers(1, 30), "writes": st.integers(1, 3),
          "scale": gen.num(0.1, 2), "seed": gen.seeds}), filtered, 40, 500),
]
