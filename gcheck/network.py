"""Random stacks of group layers with matching groups."""
import keras
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.layers import *  # noqa: F403

POINTWISE = ["relu", "tanh", "sigmoid", "elu", "leaky", "square"]


def _fit(layer, size):
    """Make the layer accept the size (by falling back to equivariant padding and stride 1); returns the output size."""
    dim = len(size)
    if layer["type"] == "convT":
        if layer["padding"] == "same" and any(k % 2 == 0 for k in layer["kernel_size"]):
            layer["padding"] = "same_equiv"
        if layer["strides"] == [1] * dim:
            if layer["padding"].startswith("valid"):
                return [n + k - 1 for n, k in zip(size, layer["kernel_size"])]
            return [n + (layer["padding"] == "same_equiv" and (k - 1) % 2) for n, k in zip(size, layer["kernel_size"])]
        return [n * s for n, s in zip(size, layer["strides"])]
    ks = layer.get("kernel_size") or layer["pool_size"]
    ones = [1] * dim
    ds = layer.get("dilation_rate") or ones
    ks = [ref.effective(k, d) for k, d in zip(ks, ds)]
    if layer["padding"].startswith("valid"):
        if any(n < k for n, k in zip(size, ks)):
            layer["padding"] = layer["padding"].replace("valid", "same")
    ss = layer["strides"]
    pads = ref.layer_padding(size, ks, ss, ones, layer["padding"])
    if pads is None:
        layer["padding"] = layer["padding"].split("_")[0] + "_equiv"
        pads = ref.layer_padding(size, ks, ss, ones, layer["padding"])
    if pads is None:
        layer["strides"] = ss = ones
        pads = ref.layer_padding(size, ks, ss, ones, layer["padding"])
    return [(n + a + b - k) // s + 1 for n, (a, b), k, s in zip(size, pads, ks, ss)]


@st.composite
def network(draw, g, depth=4, glob=None, formats=True):
    n = ref.dims(g)
    sets = ref.mixed_axes(g)
    heavy = ref.order(g) >= 24
    size = draw(per_axis(st.integers(3, 5 if heavy else 8), sets, n, True))
    start = list(size)
    first_group = g if draw(st.integers(0, 3)) else draw(st.sampled_from(ref.contained(g)))
    live, channels = None, draw(st.integers(1, 2))
    cin = channels
    layers = []
    count = draw(st.integers(1, 2 if heavy else depth))
    for _ in range(count):
        kinds = ["conv"] if live is None else ["conv", "conv", "pool", "convT", "pointwise"]
        kind = draw(st.sampled_from(kinds))
        layer = {"type": kind}
        if kind == "pointwise":
            layer["fn"] = draw(st.sampled_from(POINTWISE))
            layers.append(layer)
            continue
        layer["padding"] = draw(st.sampled_from(["same_equiv", "same", "valid_equiv", "valid"]))
        if kind == "convT":
            bigger = [b for b in ref.contained(g) if set(ref.DOCUMENTED[live]) <= set(ref.DOCUMENTED[b])]
            group, sub = draw(st.sampled_from(bigger)), live
            target = group
        else:
            group = live or first_group
            subs = ref.contained(group)
            sub = group if draw(st.integers(0, 2)) else draw(st.sampled_from(subs))
            target = sub
        layer.update(group=group, sub=sub)
        if kind == "pool":
            layer["pool_size"] = draw(per_axis(st.sampled_from([1, 2, 2, 3]), sets, n, True))
            layer["strides"] = draw(per_axis(st.sampled_from([1, 2]), sets, n, True))
            layer["kind"] = draw(st.sampled_from(["max", "average"]))
        else:
            layer["kernel_size"] = draw(per_axis(st.sampled_from([1, 2, 3, 3]), sets, n, True))
            layer["strides"] = [1] * n
            if kind == "conv" and draw(st.integers(0, 3)) == 0:
                layer["strides"] = draw(per_axis(st.sampled_from([1, 2]), sets, n, True))
            if kind == "convT" and max(size) <= 4 and draw(st.booleans()):
                layer["strides"] = list(layer["kernel_size"])
                layer["padding"] = draw(st.sampled_from(["valid", "valid_equiv"]))
            if kind == "conv" and max(layer["strides"]) == 1 and draw(st.integers(0, 3)) == 0:
                layer["dilation_rate"] = draw(per_axis(st.sampled_from([1, 2]), sets, n, True))
            filters = draw(st.integers(1, 2))
            if kind == "conv" and channels == filters == 2 and draw(st.booleans()):
                layer["keras_groups"] = 2
            layer["filters"] = channels = filters
            layer["bias"] = draw(st.booleans())
            layer["activation"] = draw(st.sampled_from([None, "relu", "tanh"]))
        size = _fit(layer, size)
        live = target
        layers.append(layer)
    glob = draw(st.booleans()) if glob is None else glob
    if glob:
        layers.append({"type": "global", "kind": draw(st.sampled_from(["max", "average"])), "keepdims": draw(st.booleans())})
    return {
        "group": g,
        "size": start,
        "cin": cin,
        "layers": layers,
        "data_format": draw(st.sampled_from(["channels_last"] * 4 + ["channels_first"])) if formats else "channels_last",
        "batch": draw(small),
        "style": draw(st.sampled_from(["functional", "sequential"])),
        "batch_known": draw(st.booleans()),
        "predict": draw(st.integers(0, 3)) == 0,
        "data": draw(data(("int", "float"))),
    }


class Network:
    def __init__(self, spec, by="name"):
        self.spec = spec
        self.dim = len(spec["size"])
        self.by = by
        self.layers = [self.make(i, s) for i, s in enumerate(spec["layers"])]
        self.live = None
        for s in spec["layers"]:
            if s["type"] in ("conv", "pool"):
                self.live = s["sub"]
            elif s["type"] == "convT":
                self.live = s["group"]
            elif s["type"] == "global":
                self.live = None

    def kept(self):
        """Elements under which the whole network has to be equivariant."""
        kept = None
        for s in self.spec["layers"]:
            if "group" in s:
                own = elements(s["sub"])
                kept = list(own) if kept is None else [e for e in kept if e in own]
        return kept

    def make(self, i, s):
        fmt = {"data_format": self.spec["data_format"]}
        if s["type"] == "pointwise":
            if s["fn"] == "leaky":
                return keras.layers.LeakyReLU()
            if s["fn"] == "square":
                return keras.layers.Activation(keras.ops.square)
            return keras.layers.Activation(s["fn"])
        if s["type"] == "global":
            stem = "Max" if s["kind"] == "max" else "Average"
            return construct(f"GlobalGroup{stem}Pooling{self.dim}D", keepdims=s["keepdims"], **fmt)
        common = {"padding": s["padding"], "strides": compact(s["strides"]), "subgroup": s["sub"], **fmt}
        if s["type"] == "pool":
            stem = "Max" if s["kind"] == "max" else "Average"
            return construct(f"Group{stem}Pooling{self.dim}D", s["group"], self.by, pool_size=compact(s["pool_size"]), **common)
        d = self.spec["data"]
        if max(s.get("dilation_rate") or [1]) > 1:
            common["dilation_rate"] = compact(s["dilation_rate"])
        if s.get("keras_groups", 1) > 1:
            common["groups"] = s["keras_groups"]
        return construct(
            class_name(s["type"], self.dim, ""), s["group"], self.by, filters=s["filters"], kernel_size=compact(s["kernel_size"]),
            use_bias=s["bias"], activation=s["activation"],
            kernel_initializer=initializer(d, f"kernel{i}"), bias_initializer=initializer(d, f"bias{i}"), **common,
        )

    def signal(self, batch=None, tag="x"):
        """channels_last"""
        shape = [batch or self.spec["batch"]] + self.spec["size"] + [self.spec["cin"]]
        return array(shape, self.spec["data"], tag)

    def given(self, x):
        return np.moveaxis(x, -1, 1) if self.spec["data_format"] == "channels_first" else x

    def back(self, y):
        y = numpy(y)
        return np.moveaxis(y, 1, -1) if self.spec["data_format"] == "channels_first" and y.ndim > 2 else y

    def apply(self, x):
        for layer in self.layers:
            x = layer(x)
        return x

    def model(self, style=None):
        shape = self.given(np.zeros([1] + self.spec["size"] + [self.spec["cin"]], "float32")).shape[1:]
        batch = self.spec["batch"] if self.spec["batch_known"] else None
        inputs = keras.Input(shape, batch_size=batch)
        if (style or self.spec["style"]) == "functional":
            return keras.Model(inputs, self.apply(inputs))
        return keras.Sequential([inputs] + self.layers)
