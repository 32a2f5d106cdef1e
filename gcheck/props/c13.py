import keras
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403
from gcheck.network import Network, network

RULE = (
    "layer: every layer class with random groups, subgroups and options: compute_output_shape, the shape "
    "of calling the layer on an Input (known and unknown batch size) and the shape Keras shows for a functional model, "
    "before or after the layer has been used, against the shape of the tensor the layer returns; refused "
    "configurations must be refused symbolically as well. model: random functional and sequential stacks (grid -> "
    "convolutions, pooling, transposed convolutions, pointwise layers, optional global pooling) defined on an Input: "
    "predicted and actual shapes, and output equal to applying the layers one by one. Non-trivial: accepted."
)
ASSUMPTIONS = ["spatial dimensions of an Input are known (the padding depends on them)"]
EXAMPLES = {"quick": 8, "thorough": 200}


def strata(tier):
    out = []
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        for family in FAMILIES:
            out.append({"kind": "layer", "family": family, "group": g, "weight": 0.6 if family == "global" else 1.5})
        out.append({"kind": "model", "group": g, "weight": 0.4 if heavy else 1})
    out.append({"kind": "layer", "family": "pool", "group": "P4M", "dim": 1, "weight": 1})
    out.append({"kind": "layer", "family": "global", "group": "P4M", "dim": 1, "weight": 1})
    return out


@st.composite
def strategy(draw, stratum):
    g = stratum["group"]
    if stratum["kind"] == "model":
        return draw(network(g))
    family = stratum["family"]
    sub = draw(st.sampled_from(ref.contained(g)))
    spec = draw(
        layer_spec(
            family, g, sub, valued=True if family in ("pool", "global") else draw(st.booleans()),
            kind=draw(st.sampled_from(["max", "average"])), dim=stratum.get("dim"),
            tie=draw(st.sampled_from(["sub", "none"])) if family != "convT" else "sub", aim=9,
        )
    )
    if family == "convT" and draw(st.integers(0, 2)) == 0:
        spec["strides"] = draw(per_axis(st.integers(1, 4), ref.mixed_axes(g), spec["dim"], True))
        spec["dilation_rate"] = [1] * spec["dim"]
    spec["shape_kind"] = draw(st.sampled_from(["tuple", "list"]))
    spec["order"] = draw(st.sampled_from(["shape", "call", "symbolic"]))
    return {"layer": spec}


def shape(t):
    return tuple(None if s is None else int(s) for s in t)


def run_layer(spec):
    x = signal(spec)
    full = shape_to_format(spec, x.shape)
    given_shape = full if spec["shape_kind"] == "tuple" else list(full)

    def fresh():
        with sut(f"constructing {spec['cls']}"):
            return make(spec)

    layer = fresh()
    predicted = None
    if spec["order"] == "shape":
        ok_p, predicted = attempt(layer.compute_output_shape, given_shape)
    elif spec["order"] == "symbolic":
        ok_p, predicted = attempt(layer, keras.KerasTensor(full))
        predicted = predicted.shape if ok_p else predicted
    ok, y = attempt(layer, to_format(spec, x))
    if not ok:
        if predicted is not None:
            require(not ok_p, f"predicted the shape {predicted} for an input that is refused: {str(y)[:300]}")
        ok_s, y_s = attempt(fresh(), keras.KerasTensor(full))
        require(not ok_s, "a symbolic input was accepted that is refused as a tensor")
        return {"nontrivial": False, "labels": ["refused", spec["cls"]]}
    actual = shape(numpy(y).shape)
    if predicted is not None:
        require(ok_p, f"predicting the shape failed: {type(predicted).__name__}: {str(predicted)[:300]}")
        require(shape(predicted) == actual, f"predicted {shape(predicted)} before the first use, actual {actual}")
    with sut("compute_output_shape"):
        after = shape(layer.compute_output_shape(given_shape))
    require(after == actual, f"compute_output_shape gives {after}, actual {actual}")
    with sut("compute_output_shape with unknown batch size"):
        unknown = shape(layer.compute_output_shape((None,) + tuple(full[1:])))
    require(unknown == (None,) + actual[1:], f"compute_output_shape gives {unknown} for an unknown batch, actual {actual}")
    with sut("calling on an Input"):
        used = layer if spec["order"] == "call" else fresh()
        inputs = keras.Input(full[1:])
        out = used(inputs)
        model = keras.Model(inputs, out)
    require(shape(out.shape) == (None,) + actual[1:], f"on an Input: {shape(out.shape)}, actual {actual}")
    require(shape(model.output_shape) == (None,) + actual[1:], f"model shows {model.output_shape}, actual {actual}")
    with sut("calling the model"):
        y_model = numpy(model(to_format(spec, x)))
    require(shape(y_model.shape) == actual, f"model returns {y_model.shape}, layer {actual}")
    for w, v in zip(used.weights, layer.weights):
        exactly(numpy(w), numpy(v), "initial weights in the model")
    same(y_model, numpy(y), "the model, against the layer")
    want = expected_size(spec)
    if want is not None:
        require(actual == want, f"actual shape {actual}, documented {want}")
    return {"nontrivial": True, "labels": layer_labels(spec) + [spec["order"]]}


def expected_size(spec):
    """The documented output shape."""
    dim = spec["dim"]
    if spec["family"] == "global":
        return None
    order = ref.order(target_name(spec))
    if spec["family"] == "convT":
        if spec["strides"] != [1] * dim:
            return None
        size = list(spec["size"])
        if spec["padding"].startswith("valid"):
            size = [n + ref.effective(k, d) - 1 for n, k, d in zip(size, spec["kernel_size"], spec["dilation_rate"])]
        elif spec["padding"] == "same_equiv":
            size = [n + (ref.effective(k, d) - 1) % 2 for n, k, d in zip(size, spec["kernel_size"], spec["dilation_rate"])]
    else:
        ks, ds = spec.get("kernel_size") or spec["pool_size"], spec.get("dilation_rate") or [1] * dim
        pads = ref.layer_padding(spec["size"], ks, strides_of(spec), ds, spec["padding"], spec["allow"])
        if pads is None:
            return None
        size = [(n + a + b - ref.effective(k, d)) // s + 1 for n, (a, b), k, d, s in zip(spec["size"], pads, ks, ds, strides_of(spec))]
    channels = spec["filters"] if spec["family"] != "pool" else spec["cin"]
    return shape_to_format(spec, (spec["batch"], *size, order, channels))


# ------------------------------------------------------------------------------------ networks


def run_network(spec):
    net = Network(spec)
    x = net.signal()
    with sut("applying the layers one by one"):
        y = net.apply(tensor(net.given(x)))
        y = numpy(y)
    with sut(f"defining the {spec['style']} model"):
        model = Network(spec).model()
    shown = shape(model.output_shape)
    require(shown[1:] == shape(y.shape)[1:], f"the model shows {shown}, its layers return {y.shape}")
    if spec["batch_known"]:
        require(shown[0] in (None, y.shape[0]), f"the model shows {shown}, its layers return {y.shape}")
    with sut(f"calling the {spec['style']} model"):
        y_model = numpy(model(tensor(net.given(x))))
        y_predict = np.asarray(model.predict(net.given(x), verbose=0)) if spec["predict"] else y_model
    same(y_model, y, "the model, against its layers one by one")
    same(y_predict, y, "predictions of the model, against its layers one by one")
    return {
        "nontrivial": float(np.ptp(y)) > 0 or y.size == 1,
        "labels": ["model", spec["style"], f"{len(spec['layers'])} layers"] + sorted({s["type"] for s in spec["layers"]}),
    }


def run(spec):
    return run_layer(spec["layer"]) if "layer" in spec else run_network(spec)
