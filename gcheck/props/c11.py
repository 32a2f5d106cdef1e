import keras
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "Every layer class with random groups, subgroups and options (also ones that must be refused, 1D pooling, "
    "transposed convolutions with any stride): a channels_last and a channels_first layer with the same integer "
    "weights on the same signal, arranged accordingly; both must accept or both refuse, and the outputs must be the "
    "same signal. data_format is given to the layer, or left out with the Keras image data format set. Non-trivial: "
    "accepted, and the output has more than one channel or spatial point."
)
ASSUMPTIONS = ["float32 on the JAX CPU backend; tolerance 1e-4 relative"]
EXAMPLES = {"quick": 10, "thorough": 250}


def strata(tier):
    out = []
    for g in ref.NAMES:
        for family in FAMILIES:
            for kind in ("max", "average") if family in ("pool", "global") else ("",):
                out.append({"family": family, "group": g, "kind": kind, "weight": 0.7 if family == "global" else 1})
    for kind in ("max", "average"):
        for family in ("pool", "global"):
            out.append({"family": family, "group": "P4M", "kind": kind, "dim": 1, "weight": 1})
    return out


@st.composite
def strategy(draw, stratum):
    g, family = stratum["group"], stratum["family"]
    sub = draw(st.sampled_from(ref.contained(g)))
    tie = draw(st.sampled_from(["sub", "none"])) if family != "convT" else "sub"
    spec = draw(
        layer_spec(
            family, g, sub, valued=True if family in ("pool", "global") else draw(st.booleans()), kind=stratum["kind"],
            dim=stratum.get("dim"), tie=tie, formats=False, aim=7,
        )
    )
    if family == "convT" and draw(st.integers(0, 3)) == 0:
        spec["strides"] = draw(per_axis(st.integers(1, 3), ref.mixed_axes(g), spec["dim"], True))
        spec["dilation_rate"] = [1] * spec["dim"]
    spec["how"] = draw(st.sampled_from(["argument", "setting", "None"]))
    return spec


def build(spec, data_format):
    s = {**spec, "data_format": data_format, "implicit": spec["implicit"]}
    kw = kwargs(s)
    if spec["how"] == "argument":
        kw["data_format"] = data_format
        return make(s, **{"data_format": data_format})
    # left to the Keras setting
    keras.config.set_image_data_format(data_format)
    s["implicit"] = True
    s["data_format"] = "channels_last"  # the default, hence left out
    if spec["how"] == "None":
        return make(s, data_format=None)
    return make(s)


def run(spec):
    before = keras.config.image_data_format()
    try:
        return compare(spec)
    finally:
        keras.config.set_image_data_format(before)


def compare(spec):
    x = signal(spec)
    results = {}
    for fmt in ("channels_last", "channels_first"):
        keras.config.set_image_data_format("channels_last")
        with sut(f"constructing the {fmt} layer"):
            layer = build(spec, fmt)
        ok, y = attempt(layer, tensor(np.moveaxis(x, -1, 1) if fmt == "channels_first" else x))
        keras.config.set_image_data_format("channels_last")
        results[fmt] = (ok, y, layer)
    (ok_l, y_l, l_l), (ok_f, y_f, l_f) = results["channels_last"], results["channels_first"]
    if not (ok_l and ok_f):
        error = y_l if not ok_l else y_f
        require(
            not ok_l and not ok_f,
            f"channels_{'first' if ok_l else 'last'} refuses what the other accepts: {type(error).__name__}: {str(error)[:300]}",
        )
        require(type(y_l) is type(y_f), f"refused with {type(y_l).__name__} and {type(y_f).__name__}")
        return {"nontrivial": False, "labels": ["refused", spec["cls"]]}
    w_l, w_f = weights_of(l_l), weights_of(l_f)
    require(len(w_l) == len(w_f), "different weights")
    for a, b in zip(w_l, w_f):
        exactly(b, a, "weights of the channels_first layer")
    y_l = from_format({**spec, "data_format": "channels_last"}, y_l)
    y_f = from_format({**spec, "data_format": "channels_first"}, y_f)
    same(y_f, y_l, f"{spec['cls']} channels_first, against channels_last")
    return {"nontrivial": y_l.size > 1 and float(np.ptp(y_l)) > 0, "labels": layer_labels(spec) + [spec["how"]]}
