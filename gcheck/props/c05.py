from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import Violation, attempt, sut

RULE = (
    "Per pair (group, subgroup) and input kind (grid / group signal): random batch, image (rectangular too), "
    "kernel, stride, dilation, padding, channels, filters, Keras groups, bias, activation, spelling of the group, data format and "
    "integer weights and signals, with strata of large images (up to about 150 points per axis) and batches; the output is compared entry by entry with the plain-numpy definition. A case is "
    "non-trivial if the layer accepted it, the group has more than one element or the kernel more than one cell, "
    "and the output is not constant."
)
ASSUMPTIONS = [
    "float32 on the JAX CPU backend; integer-valued data makes the sums exact, float data is compared to 1e-4 relative",
    "valid padding only with images at least as large as the (dilated) kernel",
]
EXAMPLES = {"quick": 14, "thorough": 400}


def strata(tier):
    out = []
    for g, h in ref.PAIRS:
        for valued in (False, True):
            heavy = ref.order(g) >= 24 and valued
            out.append({"group": g, "sub": h, "valued": valued, "weight": 0.5 if heavy else 1})
    for g, h, valued in WIDE:
        out.append({"group": g, "sub": h, "valued": valued, "wide": True, "weight": 0.15})
    for g, h, valued in LARGE:
        out.append({"group": g, "sub": h, "valued": valued, "large": True, "weight": 0.3})
    return out


def strategy(stratum):
    if stratum.get("large"):
        return enlarged(ordinary(stratum), [(i,) for i in range(ref.dims(stratum["group"]))])
    return ordinary(stratum)


@st.composite
def ordinary(draw, stratum):
    g, valued = stratum["group"], stratum["valued"]
    dim = ref.dims(g)
    wide = stratum.get("wide", False)
    cfg = draw(conv_config(dim, g, tie=False, tie_kernel=True, big=not wide))
    cin, filters = draw((wide_channel_counts if wide else channel_counts)(g, valued))
    groups = 1
    if not wide:
        groups, cin, filters = draw(keras_groups(cin, filters, 5))
    return {
        "group": g,
        "sub": stratum["sub"],
        "valued": valued,
        "by": draw(st.sampled_from(["name", "object", "partial"])),
        **cfg,
        "batch": draw(small),
        "cin": cin,
        "filters": filters,
        "keras_groups": groups,
        "bias": draw(st.booleans()),
        "activation": draw(st.sampled_from(ACTIVATIONS)),
        "allow": draw(st.integers(0, 3)) == 0,
        "data_format": draw(st.sampled_from(["channels_last", "channels_last", "channels_first"])),
        "data": draw(data()),
        "implicit": draw(st.booleans()),
    }


def layer_kwargs(spec):
    kw = {
        "filters": spec["filters"],
        "kernel_size": compact(spec["kernel_size"]),
        "strides": compact(spec["strides"]),
        "dilation_rate": compact(spec["dilation_rate"]),
        "padding": spec["padding"],
        "use_bias": spec["bias"],
        "activation": spec["activation"],
    }
    if spec.get("implicit"):
        # leave out what equals the documented default
        for key, default in (("strides", 1), ("dilation_rate", 1), ("use_bias", True), ("activation", None), ("padding", "valid_equiv")):
            if kw[key] == default:
                del kw[key]
    if spec["sub"] != spec["group"] or not spec.get("implicit"):
        kw["subgroup"] = spec["sub"]
    if spec["allow"]:
        kw["allow_non_equivariance"] = True
    if spec.get("keras_groups", 1) > 1:
        kw["groups"] = spec["keras_groups"]
    if spec["data_format"] != "channels_last" or not spec.get("implicit"):
        kw["data_format"] = spec["data_format"]
    return kw


def run(spec):
    g, h, dim = spec["group"], spec["sub"], len(spec["size"])
    domain = elements(g) if spec["valued"] else None
    acting = elements(h)
    shape = [spec["batch"]] + spec["size"] + ([len(domain)] if domain else []) + [spec["cin"]]
    x = array(shape, spec["data"])
    cls = f"GroupConv{dim}D"
    with sut(f"constructing {cls}"):
        layer = construct(
            cls, g, spec["by"], **layer_kwargs(spec),
            kernel_initializer=initializer(spec["data"], "kernel"), bias_initializer=initializer(spec["data"], "bias"),
        )
    first = spec["data_format"] == "channels_first"
    given = tensor(channels_first(x) if first else x)
    parts = spec.get("keras_groups", 1)
    merged = spec["cin"] * (len(domain) if domain else 1) // parts
    expect_refusal = (
        ref.layer_padding(spec["size"], spec["kernel_size"], spec["strides"], spec["dilation_rate"], spec["padding"], spec["allow"])
        is None
    )
    if expect_refusal:
        ok, result = attempt(layer, given)
        require(not ok, "a configuration that cannot keep equivariance was accepted")
        return {"nontrivial": False, "labels": ["refused"]}
    with sut("building the layer"):
        layer.build(given.shape)
    kernel_shape = tuple(spec["kernel_size"]) + (merged, spec["filters"])
    require(tuple(layer.kernel.shape) == kernel_shape, f"kernel of shape {tuple(layer.kernel.shape)}, expected {kernel_shape}")
    kernel = array(kernel_shape, spec["data"], "kernel", -3, 3)
    exactly(numpy(layer.kernel), kernel, "initial kernel")
    bias = None
    if spec["bias"]:
        bias = array((spec["filters"],), spec["data"], "bias", -3, 3)
        exactly(numpy(layer.bias), bias, "initial bias")
    require(len(layer.weights) == 1 + spec["bias"], f"{len(layer.weights)} weights")
    with sut("calling the layer"):
        y = numpy(layer(given))
    if first:
        require(y.ndim == dim + 3, f"output of rank {y.ndim}")
        y = np.moveaxis(y, 1, -1)
    expected = ref.group_conv(
        x.astype("float64"), kernel.astype("float64"), None if bias is None else bias.astype("float64"), acting, domain,
        spec["strides"], spec["dilation_rate"], spec["padding"], spec["allow"], spec["activation"], parts,
    )
    same(y, expected, f"{cls} output")
    return {
        "nontrivial": expected.size > 1 and float(np.ptp(expected)) > 0 and (len(acting) > 1 or np.prod(spec["kernel_size"]) > 1),
        "labels": [
            spec["padding"], f"dim{dim}", "group signal" if domain else "grid signal",
            "proper subgroup" if g != h else "whole group",
            *(["over 2**16 weights"] if kernel.size > 2**16 else []),
            *(["large"] if np.prod(spec["size"]) > 1600 or spec["batch"] > 32 else []),
            *(["keras groups"] if parts > 1 else []),
            *(["strided"] if max(spec["strides"]) > 1 else []),
            *(["dilated"] if max(spec["dilation_rate"]) > 1 else []),
            *(["rectangular"] if len(set(spec["size"])) > 1 else []),
            *(["anisotropic kernel"] if len(set(spec["kernel_size"])) > 1 else []),
            *(["even kernel"] if any(k % 2 == 0 for k in spec["kernel_size"]) else []),
        ],
    }
