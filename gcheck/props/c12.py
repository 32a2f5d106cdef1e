import json

import keras
from hypothesis import strategies as st
from keras import ops

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import Violation, attempt, sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "Random histories of up to 8 operations on one layer (every class, group, subgroup): eager, symbolic and jitted "
    "calls, calls that fail before, inside (an activation that raises) or at the first use of the layer, shape and "
    "config queries, weight assignment, set_weights, saving and loading, and gradient steps. The model is the pair "
    "(weights, configuration): after every operation the layer's weights (objects, names, values, order), filters and "
    "configuration must be the model's, and every successful call must return what the plain-numpy definition gives "
    "for the model's weights. Non-trivial: at least one failing operation or weight change followed by a successful call."
)
ASSUMPTIONS = ["one thread", "whether a bad input is refused is decided under C18"]
EXAMPLES = {"quick": 9, "thorough": 200}


def strata(tier):
    out = []
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        for valued in (False, True):
            out.append({"family": "conv", "group": g, "valued": valued, "weight": 0.6 if heavy else 1.2})
            out.append({"family": "convT", "group": g, "valued": valued, "weight": 0.5 if heavy else 1})
        for kind in ("max", "average"):
            out.append({"family": "pool", "group": g, "valued": True, "kind": kind, "weight": 0.5})
    out.append({"family": "global", "group": "P4", "valued": True, "kind": "max", "weight": 1})
    out.append({"family": "global", "group": "D4", "valued": True, "kind": "average", "weight": 1})
    return out


CALLS = ["call", "call", "call", "symbolic", "jit"]
BAD = ["group_axis", "rank", "channels", "size", "type", "activation", "symbolic_group_axis"]
CHANGES = ["assign", "assign_kernel", "set_weights", "train", "reload"]
QUERIES = ["config", "shape"]


@st.composite
def strategy(draw, stratum):
    family, g = stratum["family"], stratum["group"]
    sub = draw(st.sampled_from(ref.contained(g)))
    spec = draw(
        layer_spec(
            family, g, sub, valued=stratum["valued"], kind=stratum.get("kind", "max"), tie="sub", aim=10, activations=False,
            kinds=("int",), big=False,
        )
    )
    make_acceptable(spec)["batch"] = 1
    if family == "conv":
        if spec["keras_groups"] == 1:
            spec["filters"], spec["cin"] = min(spec["filters"], 3), min(spec["cin"], 3)
    spec["grow"] = draw(st.integers(1, 4))
    spec["use_activation"] = family in ("conv", "convT") and draw(st.booleans())
    ops_ = st.one_of(
        st.tuples(st.sampled_from(CALLS), st.integers(0, 1)),
        st.tuples(st.sampled_from(BAD), st.integers(0, 1)),
        st.tuples(st.sampled_from(CHANGES if family in ("conv", "convT") else CALLS), st.integers(0, 1)),
        st.tuples(st.sampled_from(QUERIES), st.integers(0, 1)),
    )
    spec["ops"] = [list(o) for o in draw(st.lists(ops_, min_size=2, max_size=7))] + [["call", 0]]
    return spec


class Interrupted(Exception):
    pass


class Model:
    def __init__(self, spec):
        self.spec = spec
        self.fail = False
        self.built = False
        extra = {}
        if spec["use_activation"]:
            extra["activation"] = self.activation
        with sut(f"constructing {spec['cls']}"):
            self.layer = make(spec, **extra)
        self.config = self.read_config()
        self.objects, self.weights = [], []
        self.sizes = [spec["size"], self.other_size()]
        self.steps = 0

    def activation(self, v):
        if self.fail:
            raise Interrupted("the activation fails")
        return ops.relu(v)

    def other_size(self):
        sets = ref.mixed_axes(self.spec["sub"])
        for extra in range(self.spec["grow"], self.spec["grow"] + 8):
            size = list(self.spec["size"])
            for i in sets[0]:
                size[i] += extra
            if accepts(self.spec, size):
                return size
        return self.spec["size"]

    def read_config(self):
        if self.spec["use_activation"]:
            self.layer.activation, kept = keras.activations.linear, self.layer.activation
        with sut("reading the configuration"):
            config = self.layer.get_config()
        if self.spec["use_activation"]:
            self.layer.activation = kept
        config.pop("kernel_initializer", None)
        config.pop("bias_initializer", None)
        return json.dumps(config, sort_keys=True, default=str)

    def record(self):
        """After the first successful use, or a weight change: the weights are what they are."""
        self.objects = list(self.layer.weights)
        self.names = [w.path for w in self.objects]
        self.weights = weights_of(self.layer)
        if self.spec["family"] in ("conv", "convT"):
            require(len(self.weights) == 1 + self.spec["bias"], f"{len(self.weights)} weights")
            require(tuple(self.layer.kernel.shape) == self.weights[0].shape, "kernel is not the first weight")

    def check(self, what):
        layer, spec = self.layer, self.spec
        require(self.read_config() == self.config, f"{what} changed the configuration from {self.config} to {self.read_config()}")
        if spec["family"] not in ("conv", "convT"):
            require(not layer.weights, f"{what} left the layer with weights")
            return
        require(layer.filters == spec["filters"], f"{what} left the layer with {layer.filters} filters")
        if not self.built:
            return
        now = list(layer.weights)
        require(
            len(now) == len(self.objects) and all(a is b for a, b in zip(now, self.objects)),
            f"{what} changed the list of weights from {[w.path for w in self.objects]} to {[w.path for w in now]}",
        )
        require([w.path for w in now] == self.names, f"{what} renamed the weights to {[w.path for w in now]}")
        require(layer.trainable_weights and len(layer.trainable_weights) == len(now), f"{what} changed the trainable weights")
        require(layer.kernel is self.objects[0], f"{what} left the layer with another kernel")
        require((layer.bias is self.objects[1]) if spec["bias"] else layer.bias is None, f"{what} left the layer with another bias")
        for a, b in zip(weights_of(layer), self.weights):
            exactly(a, b, f"weight after {what}")

    def expected(self, x):
        spec = {**self.spec, "activation": "relu" if self.spec["use_activation"] else None}
        return expected(spec, x, self.weights)

    def input(self, i):
        return signal(self.spec, f"x{i}", size=self.sizes[i])

    def bad_input(self, kind, i):
        spec = self.spec
        x = self.input(i)
        if kind == "group_axis":
            if not spec["valued"] or spec["family"] == "global":
                return None
            return np.concatenate([x, x], axis=-2)
        if kind == "rank":
            if self.built and spec["grow"] % 2 == 0:
                return x[..., 0]
            return x[..., None] if spec["valued"] else x[..., 0]
        if kind == "channels":
            return np.concatenate([x, x], axis=-1) if self.built and spec["family"] in ("conv", "convT") else None
        if kind == "size":
            for extra in range(1, 6):
                size = [n + extra for n in spec["size"]]
                if not accepts(spec, size):
                    return signal(spec, "bad", size=size)
            return None
        return x

    def first_use(self):
        if not self.built:
            self.built = True
            self.record()

    def step(self, op, i):
        spec, layer = self.spec, self.layer
        if op == "call":
            x = self.input(i)
            with sut(f"calling {spec['cls']}"):
                y = from_format(spec, layer(to_format(spec, x)))
            self.first_use()
            same(y, self.expected(x), f"output of {spec['cls']} at step {self.steps}")
            return "call"
        if op == "jit":
            if not self.built:
                return None
            x = self.input(i)
            with sut(f"calling {spec['cls']} compiled"):
                y = from_format(spec, compile_(lambda v: layer(v))(to_format(spec, x)))
            same(y, self.expected(x), f"compiled output of {spec['cls']} at step {self.steps}")
            return "jit"
        if op == "symbolic":
            shape = shape_to_format(spec, input_shape(spec, size=self.sizes[i]))
            with sut(f"calling {spec['cls']} on a symbolic input"):
                layer(keras.KerasTensor(shape, "float32"))
            self.first_use()
            return "symbolic"
        if op == "symbolic_group_axis":
            bad = self.bad_input("group_axis", i)
            if bad is None:
                return None
            ok, _ = attempt(layer, keras.KerasTensor(shape_to_format(spec, bad.shape), "float32"))
            return None if ok else "failed"
        if op == "type":
            ok, _ = attempt(layer, "no signal")
            return None if ok else "failed"
        if op == "activation":
            if not spec["use_activation"]:
                return None
            if not self.built:
                with sut("building the layer"):
                    layer.build(shape_to_format(spec, input_shape(spec)))
                self.first_use()
            self.fail = True
            try:
                ok, error = attempt(layer, to_format(spec, self.input(i)))
            finally:
                self.fail = False
            return "failed inside"
        if op in BAD:
            bad = self.bad_input(op, i)
            if bad is None:
                return None
            ok, _ = attempt(layer, to_format(spec, bad) if op != "rank" else tensor(bad))
            return None if ok else "failed"
        if op == "config":
            return None
        if op == "shape":
            if spec["family"] in ("conv", "convT"):
                with sut("computing the output shape"):
                    layer.compute_output_shape(shape_to_format(spec, input_shape(spec, size=self.sizes[i])))
            return None
        # weight changes
        if not self.built or (op == "train" and keras.backend.backend() == "numpy"):
            return None
        new = [array(w.shape, {"kind": "int", "seed": spec["data"]["seed"] + self.steps + 1}, f"new{k}", -3, 3) for k, w in enumerate(self.weights)]
        with sut(op):
            if op == "assign":
                for w, v in zip(layer.weights, new):
                    w.assign(v)
            elif op == "assign_kernel":
                layer.kernel.assign(new[0])
                new[1:] = self.weights[1:]
            elif op == "set_weights":
                layer.set_weights(new)
            elif op == "reload":
                store = {}
                layer.save_own_variables(store)
                store = {k: new[j] if int(k) == j else None for j, k in enumerate(sorted(store))}
                layer.load_own_variables(store)
            elif op == "train":
                x = self.input(0)
                model = keras.Sequential([layer])
                model.compile(optimizer=keras.optimizers.SGD(0.01), loss="mse", jit_compile=False)
                given = to_format(spec, x)
                model.train_on_batch(given, np.ones(np.shape(numpy(layer(given))), "float32"))
                new = None
        before = self.objects
        if new is None:
            require(all(a is b for a, b in zip(layer.weights, before)), "training replaced the weights")
            self.weights = weights_of(layer)
        else:
            self.weights = new
        return "changed"


def run(spec):
    m = Model(spec)
    done = []
    for op, i in spec["ops"]:
        what = m.step(op, i)
        m.steps += 1
        if what:
            done.append(what)
        m.check(f"{op} (step {m.steps} of {spec['ops']})")
    interesting = [k for k, d in enumerate(done) if d in ("failed", "failed inside", "changed", "jit", "symbolic")]
    return {
        "nontrivial": bool(interesting) and "call" in done[interesting[0] + 1:],
        "labels": layer_labels(spec) + sorted({d for d in done}) + [f"{len(spec['ops'])} operations"],
    }
