"""C11: setters of radius, kernel and step sizes change exactly what they name."""
import numpy as np
from hypothesis import strategies as st

import gen
from harness import Facet, expect

RULE = ("random CA class, configuration and sequence of setters; after every one the getters, the "
        "step against the model and against a fresh load are checked; non-trivial when the sequence "
        "has at least two setters and a step changes the grid")
ASSUMPTIONS = ["single internal channel for functional CA"]


@st.composite
def histories(draw, classes):
    case = gen.single(draw(gen.ca_spec(classes=classes, **gen.CONFIGURABLE)))
    case["ops"], now = [], case
    for _ in range(draw(st.integers(1, 6))):
        op = draw(gen.setter({k: v for k, v in now.items() if k != "ops"},
                             kinds=["dt", "radius", "radius", "kernel", "kernel", "params", "step"]))
        case["ops"].append(op)
        now = op["after"]
    case["grid"] = draw(gen.grid_spec(case["E"], low=5, high=9, batches=(1,),
                                      kinds=["rand", "rand", "blob", "ramp"]))
    return case


def settings(ca, spec):
    out = {"radius": (ca.get_kernel_radius(), spec["nbhd"][0]["radius"]),
           "step size": (ca.get_dt(), spec["dt"])}
    if spec["cls"] == "RxnDfn":
        out.update({"dx": (ca.get_dx(), spec["dx"]), "du": (ca.get_diffusion_u(), spec["du"]),
                    "dv": (ca.get_diffusion_v(), spec["dv"])})
    return out


def history(case, rec):
    ca = gen.make_ca(case)
    grid = gen.to_grid(case["grid"], case["dtype"])
    spec = {k: v for k, v in case.items() if k not in ("ops", "grid")}
    live = False
    for n, op in enumerate(case["ops"]):
        gen.apply_setter(ca, op, grid)
        spec = op["after"]
        what = f"op {n} ({op['op']})"
        for name, (got, want) in settings(ca, spec).items():
            expect(abs(float(got) - want) <= 1e-6 * abs(want), f"{what}: {name} is {got}, not {want}")
        p, q = np.asarray(ca.get_params(), float), gen.vector(spec)
        expect(p.shape == q.shape and np.abs(p - q).max(initial=0) <= 1e-6 * (1 + np.abs(q).max(initial=0)),
               f"{what}: parameters are not those of the resulting configuration")
        if case["cls"] == "MetaCA":
            fresh = gen.make_ca(spec)
            live = gen.same_step(ca, fresh, grid, what, 2e-5) or live
        else:
            live = gen.check_step(ca, spec, grid, what) or live
    fresh = gen.make_ca(spec)
    gen.same_step(ca, fresh, grid, "fresh load of the resulting configuration",
                  2e-5 if case["dtype"] == "f32" else 1e-7)
    rec.label(case["cls"], *[op["op"] for op in case["ops"]])
    if not live or len([o for o in case["ops"] if o["op"] != "step"]) < 2:
        rec.mark_trivial()


FACETS = [
    Facet("functional", histories(["CCA", "CCA", "Lenia", "MetaCA"]), history, 180, 4000),
    Facet("neural", histories(["NCA"]), history, 130, 2500),
    Facet("reaction", histories(["RxnDfn"]), history, 130, 2500),
]
