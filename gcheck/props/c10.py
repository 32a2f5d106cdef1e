import itertools

import keras
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "direct: random kernel, stride, dilation, padding option (any letter case), image size up to 40, data format and "
    "signal; the padding layer must return exactly the signal with the brute-force least symmetric padding (minus "
    "what Keras adds itself), or refuse with ValueError exactly when there is none (or when plain padding would be "
    "uneven or stop short of the border). layers: the same configurations through convolution and pooling layers with "
    "random groups; the output must be the plain Keras valid layer on the signal with all padding made explicit (zeros "
    "counted), acceptance must be exactly as above and the exception a ValueError. Non-trivial: padding is added or "
    "the configuration is refused."
)
ASSUMPTIONS = [
    "valid padding only with images at least as large as the (dilated) kernel",
    "the padding of transposed convolutions is decided under C07",
]
EXAMPLES = {"quick": 24, "thorough": 500}


def strata(tier):
    out = []
    for dim, fmt, same in itertools.product((1, 2, 3), ("channels_last", "channels_first"), (False, True)):
        out.append({"kind": "direct", "dim": dim, "fmt": fmt, "same": same, "weight": 4})
    for option in PADDINGS:
        for g in ("P1", "PMh", "P2MM", "P4", "D4"):
            out.append({"kind": "conv", "group": g, "option": option, "weight": 0.7})
            out.append({"kind": "pool", "group": g, "option": option, "weight": 0.7})
    return out


SIZES = st.one_of(st.integers(1, 12), st.integers(1, 40))


@st.composite
def config(draw, dim, sets, padding, pool=False, direct=False):
    ks = draw(per_axis(st.integers(1, 7 if direct else 4), sets, dim, True))
    ss = draw(per_axis(st.sampled_from([1, 1, 2, 2, 3, 4, 5] if direct else [1, 2, 3, 4]), sets, dim, True))
    ds = [1] * dim
    if not pool and (direct or max(ss) == 1) and draw(st.integers(0, 2)) == 0:
        ds = draw(per_axis(st.integers(1, 3), sets, dim, True))
    ns = draw(per_axis(SIZES if direct else st.integers(1, 6 if dim == 3 else 9), sets, dim, True))
    if padding.lower().startswith("valid"):
        ns = [max(n, ref.effective(k, d)) for n, k, d in zip(ns, ks, ds)]
        ns = [max(ns[j] for s in sets if i in s for j in s) for i in range(dim)]
    elif direct and draw(st.booleans()):
        ns = [n + 8 for n in ns]
    if draw(st.integers(0, 2)) == 0:
        ns = adjust_sizes(ns, sets, ks, ss, ds, padding)
    return {"size": ns, "kernel_size": ks, "strides": ss, "dilation_rate": ds}


@st.composite
def strategy(draw, stratum):
    kind = stratum["kind"]
    spec = {"kind": kind, "allow": draw(st.integers(0, 4)) == 0, "data": draw(data(("int", "negative", "float")))}
    if kind == "direct":
        dim = stratum["dim"]
        option = ("same" if stratum["same"] else "valid") + draw(st.sampled_from(["_equiv", "_equiv", ""]))
        spec["padding"] = draw(st.sampled_from([option, option, option.upper(), option.title()]))
        spec.update(draw(config(dim, [(i,) for i in range(dim)], option, direct=True)))
        spec.update(
            data_format=stratum["fmt"], batch=draw(small), cin=draw(st.integers(1, 3)),
            implicit=draw(st.booleans()), lists=draw(st.booleans()),
        )
        return spec
    g = stratum["group"]
    dim = ref.dims(g)
    spec.update(draw(config(dim, ref.mixed_axes(g), stratum["option"], pool=kind == "pool")))
    spec.update(
        group=g, padding=stratum["option"], data_format=draw(st.sampled_from(["channels_last", "channels_last", "channels_first"])),
        pool=draw(st.sampled_from(["max", "average"])), batch=1, cin=draw(st.integers(1, 2)),
    )
    return spec


def run(spec):
    dim = len(spec["size"])
    args = (spec["size"], spec["kernel_size"], spec["strides"], spec["dilation_rate"], spec["padding"], spec["allow"])
    full = ref.layer_padding(*args)
    labels = [spec["kind"], spec["padding"].lower()]
    first = spec["data_format"] == "channels_first"
    if spec["kind"] == "direct":
        x = array([spec["batch"]] + spec["size"] + [spec["cin"]], spec["data"])
        many = list if spec["lists"] else tuple
        kw = {
            "kernel_size": compact(many(spec["kernel_size"])) if spec["implicit"] else many(spec["kernel_size"]),
            "strides": compact(many(spec["strides"])) if spec["implicit"] else many(spec["strides"]),
            "dilation_rate": compact(many(spec["dilation_rate"])) if spec["implicit"] else many(spec["dilation_rate"]),
            "padding": spec["padding"],
            "allow_non_equivariance": spec["allow"],
            "data_format": spec["data_format"],
        }
        if spec["implicit"]:
            for key, default in (("strides", 1), ("dilation_rate", 1), ("allow_non_equivariance", False), ("data_format", "channels_last"), ("padding", "valid_equiv")):
                if kw[key] == default:
                    del kw[key]
        with sut("constructing the padding"):
            layer = gl.EquivariantPadding(dimensions=dim, **kw)
        ok, y = attempt(layer, tensor(np.moveaxis(x, -1, 1) if first else x))
        if full is None:
            require(not ok, "a configuration that spoils equivariance was accepted")
            require(isinstance(y, ValueError), f"refused with {type(y).__name__}: {str(y)[:200]}")
            return {"nontrivial": True, "labels": labels + ["refused"]}
        require(ok, f"refused a configuration that keeps equivariance: {type(y).__name__}: {str(y)[:300]}")
        extra = ref.extra_padding(*args)
        expected = ref.pad(x, extra)
        exactly(numpy(y), np.moveaxis(expected, -1, 1) if first else expected, "padded signal")
        added = any(e != (0, 0) for e in extra)
        return {"nontrivial": added, "labels": labels + (["padded"] if added else ["left alone"])}
    # inside a layer
    g = spec["group"]
    order = ref.order(g)
    x = array([spec["batch"]] + spec["size"] + [order, spec["cin"]], spec["data"])
    kw = {
        "strides": compact(tuple(spec["strides"])),
        "padding": spec["padding"],
        "allow_non_equivariance": spec["allow"],
        "data_format": spec["data_format"],
    }
    with sut("constructing the layer"):
        if spec["kind"] == "conv":
            layer = construct(
                f"GroupConv{dim}D", g, filters=2, kernel_size=compact(tuple(spec["kernel_size"])),
                dilation_rate=compact(tuple(spec["dilation_rate"])), kernel_initializer=initializer(spec["data"], "kernel"),
                **kw,
            )
        else:
            layer = construct(
                f"Group{'Max' if spec['pool'] == 'max' else 'Average'}Pooling{dim}D", g,
                pool_size=compact(tuple(spec["kernel_size"])), **kw,
            )
    ok, y = attempt(layer, tensor(np.moveaxis(x, -1, 1) if first else x))
    if full is None:
        require(not ok, "a configuration that spoils equivariance was accepted")
        require(isinstance(y, ValueError), f"refused with {type(y).__name__}: {str(y)[:200]}")
        return {"nontrivial": True, "labels": labels + ["refused"]}
    require(ok, f"refused a configuration that keeps equivariance: {type(y).__name__}: {str(y)[:300]}")
    y = numpy(y)
    if first:
        y = np.moveaxis(y, 1, -1)
    want_size = tuple(
        (n + lo + hi - ref.effective(k, d)) // s + 1
        for n, (lo, hi), k, s, d in zip(spec["size"], full, spec["kernel_size"], spec["strides"], spec["dilation_rate"])
    )
    require(y.shape[1:1 + dim] == want_size, f"output of size {y.shape[1:1 + dim]}, expected {want_size}")
    if spec["kind"] == "conv":
        # the identity element is acted with first: compare that slice with plain Keras on the padded input
        merged = x.reshape(x.shape[:1 + dim] + (-1,))
        plain = getattr(keras.layers, f"Conv{dim}D")(
            2, tuple(spec["kernel_size"]), strides=tuple(spec["strides"]), dilation_rate=tuple(spec["dilation_rate"]),
            kernel_initializer=initializer(spec["data"], "kernel"),
        )
        same(y[..., 0, :], numpy(plain(ref.pad(merged, full))), "output at the identity, against Keras on the padded input")
    else:
        identity = (ref.identity(dim),)
        want = ref.group_pool(
            x.astype("float64"), elements(g), elements(g), identity, spec["kernel_size"], spec["strides"],
            spec["padding"], spec["allow"], spec["pool"],
        )
        same(y, want, "pooled signal")
    added = any(p != (0, 0) for p in full)
    return {"nontrivial": added, "labels": labels + (["padded"] if added else ["left alone"])}
