import copy
import json
import os
import tempfile

import keras
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut
from gcheck.layers import *  # noqa: F403
from gcheck.network import Network, network

RULE = (
    "layer: every layer class with random groups (given by name, object or partial), options and Keras options (name, "
    "dtype, trainable, initialisers, regularisers, constraints), before or after use, possibly with another Keras image "
    "data format at reading time: get_config must survive JSON, from_config / keras.layers.deserialize must give a layer "
    "of the same class with the same configuration and, with the same weights, the same outputs. model: random networks "
    "cloned, saved as .keras, as .h5 or as weights only, loaded into a fresh process-level object and compared on a "
    "random batch. Non-trivial: output not constant."
)
ASSUMPTIONS = [
    "custom layers are given as custom_objects, as Keras asks for (a custom object scope for .h5)",
    "copy.deepcopy of layers that were not built yet is left out: Keras 3.0.5 cannot do it for its own layers",
    "activations and initialisers given as Python functions of the user are not serialisable in Keras either",
]
EXAMPLES = {"quick": 8, "thorough": 200}

CLASSES = {
    name: getattr(gl, name)
    for name in dir(gl)
    if isinstance(getattr(gl, name), type) and issubclass(getattr(gl, name), keras.layers.Layer)
}


def strata(tier):
    out = []
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        for family in FAMILIES:
            out.append({"kind": "layer", "family": family, "group": g, "weight": 0.5 if family == "global" else 1})
        out.append({"kind": "model", "group": g, "weight": 0.3 if heavy else 0.8})
    out.append({"kind": "layer", "family": "pool", "group": "P4M", "dim": 1, "weight": 1})
    out.append({"kind": "layer", "family": "global", "group": "P4M", "dim": 1, "weight": 1})
    return out


@st.composite
def strategy(draw, stratum):
    g = stratum["group"]
    if stratum["kind"] == "model":
        net = draw(network(g))
        for s in net["layers"]:
            if s.get("fn") == "square":
                s["fn"] = "relu"
        net["via"] = draw(st.sampled_from(["clone", "keras", "h5", "weights", "config", "deepcopy"]))
        return {"network": net}
    family = stratum["family"]
    sub = draw(st.sampled_from(ref.contained(g)))
    spec = draw(
        layer_spec(
            family, g, sub, valued=True if family in ("pool", "global") else draw(st.booleans()),
            kind=draw(st.sampled_from(["max", "average"])), dim=stratum.get("dim"), tie="sub", aim=10, kinds=("int",), big=False,
        )
    )
    make_acceptable(spec)
    options = {}
    if draw(st.booleans()):
        options["name"] = draw(st.sampled_from(["first", "a_layer"]))
    if draw(st.integers(0, 3)) == 0:
        options["trainable"] = False
    if draw(st.integers(0, 3)) == 0:
        options["dtype"] = draw(st.sampled_from(["float16", "mixed_float16", "bfloat16"]))
    if family in ("conv", "convT"):
        if draw(st.booleans()):
            options["kernel_initializer"] = draw(st.sampled_from(["zeros", "ones", "he_normal"]))
            options["bias_initializer"] = draw(st.sampled_from(["ones", "random_normal"]))
        if draw(st.integers(0, 2)) == 0:
            options["kernel_regularizer"] = draw(st.sampled_from(["l1", "l2"]))
            options["activity_regularizer"] = draw(st.sampled_from([None, "l2"]))
        if draw(st.integers(0, 2)) == 0:
            options["kernel_constraint"] = draw(st.sampled_from(["non_neg", "max_norm"]))
            options["bias_constraint"] = draw(st.sampled_from([None, "non_neg"]))
    spec["options"] = options
    spec["letters"] = draw(st.sampled_from(["lower", "lower", "upper"])) if "padding" in spec else "lower"
    spec["when"] = draw(st.sampled_from(["fresh", "used"]))
    spec["via"] = draw(st.sampled_from(["from_config", "json", "deserialize", "deepcopy"]))
    if spec["via"] == "deepcopy":
        # build of a layer of Keras 3.0.5 is tied to the object it was made with, so an unbuilt one cannot be copied
        spec["when"] = "used"
    spec["setting"] = draw(st.sampled_from([None, None, "channels_first", "channels_last"]))
    return {"layer": spec}


def listed(v):
    """Tuples as JSON gives them back."""
    if isinstance(v, dict):
        return {k: listed(w) for k, w in v.items()}
    if isinstance(v, (list, tuple)):
        return [listed(w) for w in v]
    return v


def run_layer(spec):
    before = keras.config.image_data_format()
    try:
        return round_trip(spec)
    finally:
        keras.config.set_image_data_format(before)


def round_trip(spec):
    extra = dict(spec["options"])
    if spec["letters"] == "upper":
        extra["padding"] = spec["padding"].upper()
    kw = {**kwargs(spec), **extra}
    if spec["family"] in ("conv", "convT"):
        kw.setdefault("kernel_initializer", "ones")
    with sut(f"constructing {spec['cls']}"):
        layer = construct(spec["cls"], None if spec["family"] == "global" else spec["group"], spec.get("by", "name"), **kw)
    x = to_format(spec, signal(spec))
    if spec["when"] == "used":
        with sut("using the layer"):
            layer(x)
    with sut("reading the configuration"):
        config = layer.get_config()
    if spec["setting"]:
        keras.config.set_image_data_format(spec["setting"])
    with sut(f"rebuilding by {spec['via']}"):
        text = json.dumps(config)
        if spec["via"] == "deepcopy":
            twin = copy.deepcopy(layer)
        elif spec["via"] == "from_config":
            twin = type(layer).from_config(dict(config))
        elif spec["via"] == "json":
            twin = type(layer).from_config(json.loads(text))
        else:
            data = json.loads(json.dumps(keras.layers.serialize(layer)))
            twin = keras.layers.deserialize(data, custom_objects=CLASSES)
    require(type(twin) is type(layer), f"{type(layer).__name__} came back as {type(twin).__name__}")
    with sut("reading the configuration of the copy"):
        again = twin.get_config()
    require(
        listed(again) == listed(config),
        f"the configuration {config} came back as {again}",
    )
    with sut("using both layers"):
        y = numpy(layer(x).astype("float32"))
        if not twin.built:
            twin.build(x.shape)
        require(len(twin.weights) == len(layer.weights), "another number of weights")
        for i, w in enumerate(layer.weights):
            require(tuple(twin.weights[i].shape) == tuple(w.shape), "weights of other shapes")
            w.assign(array(w.shape, spec["data"], f"w{i}", -3, 3))
        y = numpy(layer(x).astype("float32"))
        twin.set_weights(layer.get_weights())
        y2 = numpy(twin(x).astype("float32"))
        for w in twin.weights:
            w.assign(w + 1)
        still = numpy(layer(x).astype("float32"))
    require(layer.dtype_policy.name == twin.dtype_policy.name, f"dtype {layer.dtype_policy} came back as {twin.dtype_policy}")
    require(layer.trainable == twin.trainable, "trainable was lost")
    require(layer.name == twin.name, "the name was lost")
    exactly(y2, y, f"{spec['cls']} from its configuration")
    exactly(still, y, f"{spec['cls']} after the weights of its copy were changed")
    return {"nontrivial": float(np.ptp(y)) > 0, "labels": layer_labels(spec) + [spec["via"], spec["when"]] + sorted(spec["options"])}


def run_model(spec):
    net = Network(spec, by="object" if spec["predict"] else "name")
    # initialisers that can be written to a file
    for layer in net.layers:
        if hasattr(layer, "kernel_initializer"):
            layer.kernel_initializer = keras.initializers.get("ones")
            layer.bias_initializer = keras.initializers.get("zeros")
    via = spec["via"]
    with sut("defining the model"):
        model = net.model()
        for i, w in enumerate(model.weights):
            w.assign(array(w.shape, spec["data"], f"w{i}", -3, 3))
        x = tensor(net.given(net.signal()))
        y = numpy(model(x))
    with sut(f"copying the model by {via}"), tempfile.TemporaryDirectory() as d:
        if via == "deepcopy":
            other = copy.deepcopy(model)
        elif via == "clone":
            other = keras.models.clone_model(model)
            other.set_weights(model.get_weights())
        elif via == "config":
            with keras.utils.custom_object_scope(CLASSES):
                other = type(model).from_config(model.get_config())
            other.set_weights(model.get_weights())
        elif via == "keras":
            path = os.path.join(d, "m.keras")
            model.save(path)
            other = keras.models.load_model(path, custom_objects=CLASSES)
        elif via == "h5":
            path = os.path.join(d, "m.h5")
            model.save(path)
            with keras.utils.custom_object_scope(CLASSES):
                other = keras.models.load_model(path)
        else:
            path = os.path.join(d, "m.weights.h5")
            model.save_weights(path)
            fresh = Network(spec)
            other = fresh.model()
            other.load_weights(path)
        y2 = numpy(other(x))
    ours = [(type(a).__name__, a.get_config()) for a in model.layers if type(a).__name__ in CLASSES]
    theirs = [(type(a).__name__, a.get_config()) for a in other.layers if type(a).__name__ in CLASSES]
    if via != "weights":
        require(listed([list(a) for a in ours]) == listed([list(b) for b in theirs]), "the layers came back with other configurations")
    exactly(y2, y, f"the model copied by {via}")
    return {"nontrivial": float(np.ptp(y)) > 0 or y.size == 1, "labels": ["model", via, spec["style"]]}


def run(spec):
    return run_layer(spec["layer"]) if "layer" in spec else run_model(spec["network"])
