"""C38: the demonstration app against a model of its buttons."""
import contextlib
import functools
import os
import shutil
import sys
import tempfile
import time
import types

import numpy as np
import torch
from hypothesis import strategies as st

from harness import Facet, REPO, expect

RULE = ("random histories of buttons and clock ticks over random libraries, and every pattern of the shipped library; "
        "non-trivial when a tick changes the picture")
ASSUMPTIONS = ["bokeh is not installed: its widgets, document and periodic callbacks are stood in for by recording ones "
               "with the same rules (known callbacks only, columns of a stream as in its source)",
               "a library holds at least one pattern with a recorded commit"]
SIDE = 96
CONFIGS = ["orbium.npy", "s613.npy", "conway_life.npy", "geminium2.npy", "synorbium.npy", "scutium_gravidus.npy"]


class Widget:

    def __init__(self, *args, **kwargs):
        self.args, self.clicks = args, []
        self.text = self.label = ""
        self.__dict__.update(kwargs)

    def on_click(self, fn):
        self.clicks.append(fn)

    def press(self):
        for fn in self.clicks:
            fn()


class Document:

    def __init__(self):
        self.session_callbacks, self.roots = [], []

    def add_periodic_callback(self, fn, period):
        callback = types.SimpleNamespace(callback=fn, period=period)
        self.session_callbacks.append(callback)
        return callback

    def remove_periodic_callback(self, callback):
        if callback not in self.session_callbacks:
            raise ValueError("callback already ran or was already removed, cannot be removed again")
        self.session_callbacks.remove(callback)

    def add_root(self, root):
        self.roots.append(root)


class App:
    """the app running against a stand-in for bokeh"""

    def __init__(self, directory=None):
        self.doc, self.buttons, self.texts, self.sources, self.images, self.slept = Document(), [], [], [], [], []
        self.directory = directory

    def modules(self):
        app = self

        def widget(collection):
            class Made(Widget):
                def __init__(self, *args, **kwargs):
                    super().__init__(*args, **kwargs)
                    collection.append(self)
            return Made

        class Source:
            def __init__(self, data=None, **kwargs):
                self.data = {k: list(v) for k, v in dict(data or {}).items()}
                app.sources.append(self)

            def stream(self, new_data, rollover=None):
                if set(new_data) != set(self.data):
                    raise ValueError("Must stream updates to all existing columns")
                for k, v in new_data.items():
                    self.data[k] = (self.data[k] + list(v))[-rollover if rollover else 0:]
                    self.data[k] = self.data[k][-4:]

        class Figure(Widget):
            def image(self, image=None, source=None, **kwargs):
                if image not in source.data:
                    raise ValueError("no such column in the source")
                app.images.append((image, source))

        def layout(*args, **kwargs):
            return types.SimpleNamespace(children=list(args))

        bokeh = {n: types.ModuleType(n) for n in ("bokeh", "bokeh.io", "bokeh.plotting", "bokeh.layouts",
                                                  "bokeh.models", "bokeh.events")}
        for name, module in bokeh.items():
            if "." in name:
                setattr(bokeh["bokeh"], name.split(".")[1], module)
        bokeh["bokeh.io"].curdoc = bokeh["bokeh.plotting"].curdoc = lambda: app.doc
        bokeh["bokeh.io"].output_notebook = bokeh["bokeh.io"].show = lambda *a, **k: None
        bokeh["bokeh.plotting"].figure = Figure
        bokeh["bokeh.layouts"].row = bokeh["bokeh.layouts"].column = layout
        models = bokeh["bokeh.models"]
        models.Button, models.Paragraph, models.ColumnDataSource = widget(self.buttons), widget(self.texts), Source
        models.TextInput = models.Div = models.Slider = Widget
        bokeh["bokeh.events"].DoubleTap = bokeh["bokeh.events"].Tap = Widget
        return bokeh

    @contextlib.contextmanager
    def running(self):
        import yuca.zoo.librarian as librarian
        real = librarian.Librarian, time.sleep
        before = {n: sys.modules.get(n) for n in self.modules()}
        sys.modules.update(self.modules())
        dtype = torch.get_default_dtype()
        torch.set_default_dtype(torch.float32)
        grads = torch.is_grad_enabled()
        if self.directory:
            librarian.Librarian = functools.partial(real[0], directory=self.directory)
        time.sleep = self.slept.append
        try:
            path = os.path.join(REPO, "gecco_bokeh_app", "main.py")
            self.space = {"__name__": "bk_script_main", "__file__": path}
            exec(compile(open(path).read(), path, "exec"), self.space)
            yield self
        finally:
            librarian.Librarian, time.sleep = real
            torch.set_default_dtype(dtype)
            torch.set_grad_enabled(grads)
            for n, m in before.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m

    def button(self, *words):
        found = [b for b in self.buttons if all(w in b.label.lower() for w in words)]
        expect(len(found) == 1, f"{len(found)} buttons labelled {words}")
        return found[0]

    def picture(self):
        expect(len(self.images) == 1, "one picture")
        column, source = self.images[0]
        return np.asarray(source.data[column][-1], float)

    def text(self):
        return "\n".join(str(t.text) for t in self.texts)

    def shown_widgets(self):
        seen, todo = [], list(self.doc.roots)
        while todo:
            item = todo.pop()
            seen.append(item)
            todo.extend(getattr(item, "children", []))
        return seen


def placed(picture, pattern):
    """the pattern lies once in the picture, near its middle, with nothing around it"""
    p = np.asarray(pattern, np.float32).astype(float).reshape(pattern.shape[-2:])
    h, w = p.shape
    for dh in range(-5, 6):
        for dw in range(-5, 6):
            a, b = (SIDE - h) // 2 + dh, (SIDE - w) // 2 + dw
            if a < 0 or b < 0 or a + h > SIDE or b + w > SIDE:
                continue
            want = np.zeros((SIDE, SIDE))
            want[a:a + h, b:b + w] = p
            if np.array_equal(want, picture):
                return True
    return False


class Model:

    def __init__(self, names, meta, patterns):
        self.names, self.meta, self.patterns = names, meta, patterns
        self.at, self.running, self.period, self.step = len(names) - 1, False, 512, 0
        self.cas = {}

    def turn(self, direction):
        while True:
            self.at = (self.at + direction) % len(self.names)
            if self.meta[self.names[self.at]]["commit"] != "none":
                break
        self.step = 0

    @property
    def name(self):
        return self.names[self.at]

    def ca(self):
        from yuca.ca.continuous import CCA
        config = self.meta[self.name]["config"]
        if config not in self.cas:
            ca = CCA()
            ca.no_grad()
            ca.restore_config(config, verbose=False)
            self.cas[config] = ca
        return self.cas[config]


def check_still(app, model, what):
    expect(len(app.doc.session_callbacks) == (1 if model.running else 0),
           f"{what}: {len(app.doc.session_callbacks)} periodic callbacks, {'running' if model.running else 'paused'}")
    if model.running:
        expect(app.doc.session_callbacks[0].period == model.period,
               f"{what}: period {app.doc.session_callbacks[0].period}, expected {model.period}")
    go = [b for b in app.buttons if b.label in ("Run >", "Pause")]
    expect(len(go) == 1 and go[0].label == ("Pause" if model.running else "Run >"), f"{what}: label {[b.label for b in go]}")


def check_start(app, model, what):
    expect(placed(app.picture(), model.patterns[model.name]), f"{what}: the picture is not pattern {model.name} on an empty grid")
    text, meta = app.text(), model.meta[model.name]
    for word in (f"alias: {model.name}\n", os.path.splitext(meta["config"])[0], meta["entry"], meta["commit"]):
        expect(word in text + "\n", f"{what}: {word!r} of pattern {model.name} is not among the texts {text!r}")


def history(case, rec):
    root = tempfile.mkdtemp(dir=os.getcwd())
    try:
        rng = np.random.RandomState(case["seed"])
        meta, patterns = {}, {}
        for n, p in enumerate(case["library"] + [{"name": "orbium_orbium000", "config": 0, "size": [20, 20],
                                                  "commit": True, "flat": False}]):
            name = p["name"]
            array = rng.rand(*p["size"]) * (rng.rand(*p["size"]) < 0.8)
            array[0, 0] = array[-1, -1] = 1.0
            if CONFIGS[p["config"]] == "conway_life.npy":
                array = np.round(array)
            array = array if p["flat"] else array[None, None]
            commit = f"abc{n:04d}def" if p["commit"] else "none"
            np.save(os.path.join(root, name + ".npy"), array)
            meta[name] = {"config": CONFIGS[p["config"]], "commit": commit, "entry": f"['evolve.py', '-g', '{n}']"}
            with open(os.path.join(root, name + ".csv"), "w") as f:
                f.write(f"ca_config,{CONFIGS[p['config']]}\n")
                if p["commit"]:          # older patterns have no such field
                    f.write(f"commit_hash,{commit}\nnotes, {n} notes\n")
                f.write(f"entry_point,{meta[name]['entry']}")
            patterns[name] = array
        with App(root).running() as app:
            model = Model(sorted(meta), meta, patterns)
            moved = play(app, model, case["plan"])
        rec.label(f"{len(meta)} patterns")
        if not moved:
            rec.mark_trivial()
    finally:
        shutil.rmtree(root, ignore_errors=True)


def play(app, model, plan):
    seen = app.shown_widgets()
    for widget in app.buttons + app.texts:
        expect(any(w is widget for w in seen), f"a widget is not in the document: {widget.label or widget.text!r}")
    expect(len(app.buttons) == 6, f"{len(app.buttons)} buttons")
    check_still(app, model, "at the start")
    check_start(app, model, "at the start")
    moved = False
    for n, op in enumerate(plan):
        what = f"operation {n} ({op})"
        before = app.picture().copy()
        if op == "go":
            (app.button("pause") if model.running else app.button("run")).press()
            model.running = not model.running
        elif op in ("faster", "slower"):
            app.slept.clear()
            app.button(op).press()
            model.period = max(model.period / 2, 128) if op == "faster" else min(model.period * 2, 8192)
            expect(sum(app.slept) <= 10, "the app stops for long")
        elif op in ("next", "previous", "current"):
            app.button(op).press()
            if op == "current":
                model.step = 0
            else:
                model.turn(1 if op == "next" else -1)
            check_start(app, model, what)
            check_still(app, model, what)
            continue
        elif op == "tick":
            for callback in list(app.doc.session_callbacks):
                callback.callback()
            if model.running:
                model.step += 1
                want = model.ca()(torch.tensor(before[None, None].tolist(), dtype=torch.float32))
                want = np.array(want.tolist())[0, 0]
                expect(np.abs(app.picture() - want).max() <= 1e-6,
                       f"{what}: the picture is not the next step of {model.meta[model.name]['config']}")
                moved = moved or not np.array_equal(before, want)
                expect(any(f"Step {model.step}," in str(t.text) for t in app.texts),
                       f"{what}: the step count is not {model.step} but in {app.text()!r}")
                check_still(app, model, what)
                continue
        expect(np.array_equal(app.picture(), before), f"{what}: the picture changed")
        check_still(app, model, what)
    return moved


def shipped_names():
    return sorted(f[:-4] for f in os.listdir(os.path.join(REPO, "yuca", "zoo")) if f.endswith(".npy"))


def shipped(case, rec):
    zoo = os.path.join(REPO, "yuca", "zoo")
    name = case["name"]
    meta, patterns = {}, {}
    for n in shipped_names():
        fields = dict(line.rstrip("\n").split(",", 1) for line in open(os.path.join(zoo, n + ".csv")) if "," in line)
        meta[n] = {"config": fields["ca_config"].strip(), "commit": fields.get("commit_hash", "none").strip(),
                   "entry": fields.get("entry_point", "none").strip()}
    if meta[name]["commit"] == "none":       # never offered
        rec.mark_trivial()
        return
    pattern = np.load(os.path.join(zoo, name + ".npy"))
    with App().running() as app:
        index = app.space["lib"].index
        names = sorted(index)
        expect(names == shipped_names(), "the app's library is not the shipped one")
        k = names.index(name)
        if case["button"] == "previous":     # the current pattern is the last one
            k = (k + 1) % len(names)
            index[:] = names[k + 1:] + names[:k + 1]
        else:
            index[:] = names[k:] + names[:k]
        try:
            app.button(case["button"]).press()
        except Exception as exc:
            expect(False, f"the app cannot show {name}: {type(exc).__name__}: {exc}")
        expect(sorted(index) == names, "patterns were lost from the library")
        model = Model(names, meta, {name: pattern})
        model.at = names.index(name)
        check_start(app, model, case["button"])
        app.button("run").press()
        model.running = True
        before = app.picture().copy()
        for callback in list(app.doc.session_callbacks):
            callback.callback()
        want = np.array(model.ca()(torch.tensor(before[None, None].tolist(), dtype=torch.float32)).tolist())[0, 0]
        expect(np.abs(app.picture() - want).max() <= 1e-6, f"{name}: the picture is not the next step of its universe")
    rec.label(case["button"])


def unshowable(case, message):
    if f"the app cannot show {case['name']}: " in message:
        return "unshowable:" + case["name"]


OPS = ["go", "go", "tick", "tick", "tick", "next", "next", "previous", "current", "faster", "slower"]


@st.composite
def histories(draw):
    names = draw(st.lists(st.sampled_from(["a000", "glider000", "glider001", "my_frog000", "orbium000", "p_x000",
                                           "wobbler000", "zebra000"]), unique=True, max_size=5))
    size = st.integers(1, 40)
    return {"seed": draw(st.integers(0, 10 ** 6)),
            "library": [{"name": n, "config": draw(st.integers(0, len(CONFIGS) - 1)), "size": [draw(size), draw(size)],
                         "commit": draw(st.integers(0, 3)) > 0, "flat": draw(st.booleans())} for n in names],
            "plan": draw(st.lists(st.sampled_from(OPS), min_size=1, max_size=14))}


@st.composite
def visits(draw):
    return {"name": draw(st.sampled_from(shipped_names())), "button": draw(st.sampled_from(["next", "previous"]))}


FACETS = [
    Facet("history", histories(), history, 60, 1500),
    Facet("shipped", visits(), shipped, 98, 98, known=unshowable),
]
