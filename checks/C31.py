"""C31: the step predictor against a functional re-implementation and reference training."""
import os

import numpy as np
from hypothesis import strategies as st
from scipy import ndimage

import evo
import gen
from harness import Facet, expect

RULE = ("layer repeats 1-4, radii 0-3, 1-3 channels, hidden sizes, data, batchings, epochs, dropout, learning "
        "rates and seeds; non-trivial when there are at least two repeats, batches or epochs")
ASSUMPTIONS = ["parameters are read from the instance's state dictionary, in the order of the blocks"]


def model(case, **extra):
    from yuca.step_predictor import StepPredictor
    kw = dict(layer_repeats=case["repeats"], kernel_radius=case["radius"], hidden_channels=case["hidden"],
              out_channels=case["c"], dropout=case["dropout"], seed=case["seed"], tag="verif")
    kw.update(extra)
    return StepPredictor(**kw)


def weights(m, case):
    """[(w, b, w1, b1)] per block, from the 4 k tensors of the state"""
    values = [v.detach().double().numpy().copy() for v in m.state_dict().values()]
    expect(len(values) == 4 * case["repeats"], f"{len(values)} parameter tensors for {case['repeats']} blocks")
    n, r = case["c"], case["radius"]
    shapes = [(case["hidden"], n, 2 * r + 1, 2 * r + 1), (case["hidden"],), (n, case["hidden"], 1, 1), (n,)]
    blocks = [values[4 * i:4 * i + 4] for i in range(case["repeats"])]
    for b in blocks:
        expect([v.shape for v in b] == shapes, f"parameters of the shapes {[v.shape for v in b]}")
    return blocks


def forward(blocks, x):
    x = np.asarray(x, float)
    for w, b, w1, b1 in blocks:
        h = np.zeros((x.shape[0], w.shape[0]) + x.shape[2:])
        for i in range(x.shape[0]):
            for o in range(w.shape[0]):
                for c in range(w.shape[1]):
                    h[i, o] += ndimage.correlate(x[i, c], w[o, c], mode="constant", cval=0.0)
                h[i, o] += b[o]
        h = np.maximum(h, 0)
        z = np.einsum("oc,nchw->nohw", w1[:, :, 0, 0], h) + b1[None, :, None, None]
        x = x + 1 / (1 + np.exp(-z))
    return x


def data(case, n, salt=0):
    import torch
    rng = np.random.RandomState(case["dseed"] + salt)
    shape = (n, case["c"], case["h"], case["w"])
    return (torch.tensor(rng.rand(*shape).astype(np.float32)), torch.tensor(rng.rand(*shape).astype(np.float32)))


def batches(x, y, cuts):
    """split at the given relative positions"""
    n = len(x)
    at = sorted({0, n} | {min(n, max(0, int(round(c * n)))) for c in cuts})
    return [(x[a:b], y[a:b]) for a, b in zip(at, at[1:])]


def predict(case, rec):
    import torch
    m = model(case)
    m.eval()
    x, _ = data(case, case["n"])
    keep = x.clone()
    with torch.no_grad():
        out = m(x)
    expect(out.shape == x.shape, f"prediction of shape {tuple(out.shape)}")
    expect(torch.equal(x, keep), "the input was changed")
    blocks = weights(m, case)
    want = forward(blocks, gen.arr(x))
    expect(np.abs(gen.arr(out) - want).max() < 1e-4, f"prediction off by {np.abs(gen.arr(out) - want).max():.3g}")
    # every block's parameters matter, and are trained
    own = list(m.parameters())
    expect(len(own) == 4 * case["repeats"], f"{len(own)} trainable tensors for {case['repeats']} blocks")
    for n, p in enumerate(own):
        old = p.detach().clone()
        with torch.no_grad():
            if n % 4 == 0:
                p.add_(1.0)
            elif n % 4 == 1:
                p.add_(5.0)
            else:
                p.add_(0.5)
            other = m(x)
            moved = forward(weights(m, case), gen.arr(x))
            p.copy_(old)
        off = np.abs(gen.arr(other) - moved).max()
        expect(off < 1e-4, f"with parameter tensor {n} changed, the prediction is off by {off:.3g}")
    with torch.no_grad():
        expect(torch.equal(m(x), out), "the prediction is not reproducible")
    same = model(case)
    same.eval()
    with torch.no_grad():
        expect(torch.equal(same(x), out), "the same seed gives another predictor")
        other = model(case, seed=case["seed"] + 1)
        other.eval()
        expect(not torch.equal(other(x), out), "the predictor does not depend on its seed")
    rec.label(f"repeats {case['repeats']}", f"radius {case['radius']}", f"c{case['c']}")
    if case["repeats"] < 2:
        rec.mark_trivial()


def evaluate(case, rec):
    import torch
    m = model(case)
    x, y = data(case, case["n"])
    before = [v.clone() for v in m.state_dict().values()]
    blocks = weights(m, case)
    want = ((forward(blocks, gen.arr(x)) - gen.arr(y)) ** 2).sum() / case["n"]
    if case["training"]:
        m.train()
    got = [m.evaluate(batches(x, y, cuts)) for cuts in (case["cuts"], [], np.arange(case["n"]) / case["n"])]
    loader = torch.utils.data.DataLoader(torch.utils.data.TensorDataset(x, y), batch_size=case["bs"])
    got.append(m.evaluate(loader))
    for g in got:
        expect(abs(float(g) - want) <= 1e-3 * max(1.0, want), f"evaluation {got} instead of {want}")
    expect(all(torch.equal(a, b) for a, b in zip(before, m.state_dict().values())), "evaluating changed weights")
    rec.label(f"n{case['n']}")
    if len(batches(x, y, case["cuts"])) < 2:
        rec.mark_trivial()


def reference_training(blocks, train, lr, epochs):
    """Adam on the mean squared error of the functional model"""
    import torch
    import torch.nn.functional as F
    params = [[torch.tensor(v, dtype=torch.float32, requires_grad=True) for v in b] for b in blocks]
    flat = [p for b in params for p in b]
    opt = torch.optim.Adam(flat, lr=lr)
    losses = []
    for _ in range(epochs):
        for x, y in train:
            opt.zero_grad()
            for w, b, w1, b1 in params:
                h = torch.relu(F.conv2d(x, w, b, padding=w.shape[-1] // 2))
                x = x + torch.sigmoid(F.conv2d(h, w1, b1))
            loss = ((x - y) ** 2).mean()
            loss.backward()
            opt.step()
            losses.append(float(loss))
    return [p.detach().double().numpy() for p in flat], losses


def fit(case, rec):
    import torch
    with evo.contained() as find:
        bystander = model(case, seed=case["seed"] + 5)
        kept = [v.clone() for v in bystander.state_dict().values()]
        m = model(case)
        x, y = data(case, case["n"])
        vx, vy = data(case, case["vn"], 1)
        train, val = batches(x, y, case["cuts"]), batches(vx, vy, case["vcuts"])
        blocks = weights(m, case)
        kw = {"max_epochs": case["epochs"], "lr": case["lr"]}
        if case["every"]:
            kw["disp_every"] = case["every"]
        modes = []
        hook = m.register_forward_pre_hook(lambda mod, i: modes.append((torch.is_grad_enabled(), mod.training)))
        m.fit(train, val_dataloader=val, **kw)
        hook.remove()
        expect(all(a == b for a, b in modes), "dropout is not used exactly in training steps: "
               f"(training, dropout) {modes[:3]} .. {modes[-3:]}")
        logs = [f for f in find("logs", "verif") if f.endswith(".npy")]
        expect(len(logs) == 1, f"log files {logs}")
        log = np.load(logs[0], allow_pickle=True).reshape(1)[0]
        states = find("models", "verif")
        expect(len(states) == 1, f"model files {states}")
        saved = torch.load(states[0])
        final = [v.detach().double().numpy() for v in m.state_dict().values()]
        # the saved model is the trained one
        fresh = model(case, seed=case["seed"] + 9)
        fresh.load_state_dict(saved)
        m.eval(), fresh.eval()
        with torch.no_grad():
            expect(torch.equal(m(x), fresh(x)), "the saved weights are not the trained ones")
        expect(all(torch.equal(a, b) for a, b in zip(kept, bystander.state_dict().values())),
               "training changed another instance")
        n_batches = case["epochs"] * len(train)
        losses = [float(v) for v in log["train_smooth_loss"]]
        expect(len(losses) == n_batches, f"{len(losses)} losses for {n_batches} batches")
        expect(len(log["wall_time_t"]) == n_batches, "one time per batch")
        every = case["every"] or max(1, case["epochs"] // 10)
        due = sorted(set(range(0, case["epochs"], every)) | {case["epochs"] - 1})
        expect([int(e) for e in log["epochs"]] == due, f"reported epochs {log['epochs']}, due {due}")
        expect(len(log["val_loss"]) == len(due), f"{len(log['val_loss'])} validation losses")
        last = m.evaluate(val)
        expect(abs(last - log["val_loss"][-1]) <= 1e-4 * max(1, last), "the last validation loss is not that of "
               f"the trained predictor: {log['val_loss'][-1]} and {last}")
        want, ref_losses = reference_training(blocks, train, case["lr"], case["epochs"])
        if case["dropout"] == 0:
            scale = 2e-3 + 0.03 * case["lr"] * n_batches
            worst = max(np.abs(a - b).max() for a, b in zip(final, want))
            expect(worst < scale, f"trained weights are off by {worst:.3g}")
            smooth = ref_losses[0]
            for n, v in enumerate(ref_losses):
                smooth = v if n == 0 else smooth * 0.99 + v * 0.01
                expect(abs(losses[n] - smooth) <= 2e-3 * max(1, smooth), f"loss {n} recorded as {losses[n]}, is {smooth}")
        moved = [np.abs(f - b).max() > 0 for f, b in zip(final, [v for blk in blocks for v in blk])]
        alive = [np.abs(f - b).max() > 0 for f, b in zip(want, [v for blk in blocks for v in blk])]
        expect(all(a <= m_ for a, m_ in zip(alive, moved)) or case["dropout"] > 0.3,
               f"weights that training should change are unchanged: {moved}")
        expect(any(moved), "training changed nothing")
        for f in find("logs", "verif") + find("models", "verif"):
            os.remove(f)
        # reproducible
        again = model(case)
        again.fit(train, val_dataloader=val, **kw)
        second = [v.detach().double().numpy() for v in again.state_dict().values()]
        expect(all(np.array_equal(a, b) for a, b in zip(final, second)), "training is not reproducible")
        if case["end"]:
            again.end_evaluate(train, val, val)
            text = [f for f in find("logs", "verif") if f.endswith(".txt")]
            expect(len(text) == 1, f"final reports {text}")
            body = open(text[0]).read()
            numbers = {k: float(line.split(f"{k} loss:")[1].split()[0]) for k in ("train", "val", "test")
                       for line in body.split("\n") if f"{k} loss:" in line}
            for k, d in (("train", train), ("val", val), ("test", val)):
                expect(abs(numbers.get(k, np.nan) - again.evaluate(d)) < 1e-4 * max(1, again.evaluate(d)),
                       f"{k} loss reported as {numbers.get(k)}")
    rec.label(f"repeats {case['repeats']}", f"{len(train)} batches", f"{case['epochs']} epochs",
              "dropout" if case["dropout"] else "no dropout")
    if n_batches < 2:
        rec.mark_trivial()


NET = {"repeats": st.integers(1, 4), "radius": st.integers(0, 3), "hidden": st.integers(1, 6),
       "c": st.integers(1, 3), "seed": st.integers(0, 10 ** 6), "dseed": gen.seeds,
       "h": st.integers(1, 9), "w": st.integers(1, 9), "n": st.one_of(st.integers(1, 7), st.integers(8, 20)),
       "dropout": st.sampled_from([0.0, 0.1, 0.5])}
CUTS = st.lists(gen.num(0, 1, 20), max_size=4)

FACETS = [
    Facet("predict", st.fixed_dictionaries(NET), predict, 200, 3000),
    Facet("evaluate", st.fixed_dictionaries({**NET, "cuts": CUTS, "bs": st.integers(1, 9), "training": st.booleans()}),
          evaluate, 150, 2000),
    Facet("fit", st.fixed_dictionaries({
        **NET, "dropout": st.sampled_from([0.0, 0.0, 0.1, 0.5]), "cuts": CUTS, "vcuts": CUTS, "vn": st.integers(1, 4),
        "epochs": st.one_of(st.integers(1, 5), st.integers(6, 23)), "every": st.sampled_from([None, None, 1, 2, 3]),
        "lr": st.sampled_from([3e-4, 1e-3, 0.01]), "end": st.booleans()}), fit, 60, 800),
]
