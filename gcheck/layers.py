"""Random layers with a matching random input: the spec of a layer, its construction, its input and its output."""
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.common import ACTIVATIONS, PADDINGS

FAMILIES = ("conv", "convT", "pool", "global")


def class_name(family, dim, kind):
    if family == "conv":
        return f"GroupConv{dim}D"
    if family == "convT":
        return f"GroupConv{dim}DTranspose"
    stem = "MaxPooling" if kind == "max" else "AveragePooling"
    return f"{'Global' if family == 'global' else ''}Group{stem}{dim}D"


@st.composite
def pool_config(draw, dim, sets, tie, aim=8):
    heavy = dim == 3
    ks = draw(per_axis(st.sampled_from([1, 2, 2, 3, 3, 4] if heavy else [1, 2, 2, 2, 3, 3, 4, 5]), sets, dim, tie))
    padding = draw(st.sampled_from(PADDINGS))
    mode = draw(st.integers(0, 3))
    strides = None
    if mode:
        strides = draw(per_axis(st.sampled_from([1, 1, 2, 3, 4] if heavy else [1, 1, 2, 2, 3, 4, 5]), sets, dim, tie))
    ss = strides or ks
    ns = draw(per_axis(st.integers(0, 4 if heavy else 7), sets, dim, tie))
    if not heavy and draw(st.integers(0, 14)) == 0:
        ns = [n + 16 for n in ns]
    ns = [n + (k if padding.startswith("valid") else 1) for n, k in zip(ns, ks)]
    if tie:
        ns = [max(ns[j] for s in sets if i in s for j in s) for i in range(dim)]
    if draw(st.integers(0, 9)) < aim:
        ns = adjust_sizes(ns, sets if tie else [(i,) for i in range(dim)], ks, ss, [1] * dim, padding)
    return {"size": ns, "pool_size": ks, "strides": strides, "padding": padding}


@st.composite
def layer_spec(
    draw, family, group, sub, valued=True, kind="max", dim=None, tie="sub", formats=True, allow=True, aim=8,
    activations=True, kinds=("int", "float", "sparse"), big=True, wide=False, options=True,
):
    """tie: which group must leave the image (and strides) unchanged: 'sub', 'none'.  The kernel is always left
    unchanged by the whole group."""
    dim = dim or ref.dims(group)
    true_dim = dim == ref.dims(group)
    spec = {"family": family, "cls": class_name(family, dim, kind), "group": group, "sub": sub, "dim": dim, "kind": kind}
    tied = tie == "sub"
    if family in ("conv", "convT"):
        cfg = draw(conv_config(dim, group, tie=False, tie_kernel=True, transpose=family == "convT", aim=0, big=big))
        if tied:
            # strides and image sizes only have to be unchanged by the subgroup
            for s in ref.mixed_axes(sub):
                for i in s:
                    cfg["strides"][i] = cfg["strides"][s[0]]
                    cfg["size"][i] = max(cfg["size"][j] for j in s)
                if family == "convT" and cfg["strides"] != [1] * dim:
                    cfg["strides"] = list(cfg["kernel_size"])
        if family == "conv" and draw(st.integers(0, 9)) < aim:
            cfg["size"] = adjust_sizes(
                cfg["size"], ref.mixed_axes(sub) if tied else [(i,) for i in range(dim)],
                cfg["kernel_size"], cfg["strides"], cfg["dilation_rate"], cfg["padding"],
            )
        if wide:
            cfg["size"] = [min(n, 3) for n in cfg["size"]]
            cin, filters = draw(wide_channel_counts(sub if family == "convT" else group, valued))
        else:
            cin, filters = draw(channel_counts(group, valued))
            if family == "conv" and options:
                spec["keras_groups"], cin, filters = draw(keras_groups(cin, filters))
        spec.update(cfg, cin=cin, filters=filters)
        spec["bias"] = draw(st.integers(0, 3)) > 0
        spec["activation"] = draw(st.sampled_from(ACTIVATIONS)) if activations else None
        spec["valued"] = valued
    elif family == "pool":
        sets = ref.mixed_axes(sub) if true_dim else [(i,) for i in range(dim)]
        spec.update(draw(pool_config(dim, sets, tied, aim)), cin=draw(st.sampled_from([1, 2, 2, 3])), valued=True)
    else:
        ns = draw(per_axis(st.integers(1, 6), ref.mixed_axes(sub) if true_dim else [(i,) for i in range(dim)], dim, tied))
        spec.update(size=ns, cin=draw(st.sampled_from([1, 2, 3])), valued=True, keepdims=draw(st.booleans()))
    if family in ("conv", "convT", "pool"):
        spec["allow"] = draw(st.integers(0, 3)) == 0 if allow else False
        if family == "pool" or draw(st.booleans()):
            spec["by"] = draw(st.sampled_from(["name", "object", "partial"]))
        else:
            spec["by"] = "name"
    spec["data_format"] = draw(st.sampled_from(["channels_last", "channels_last", "channels_first"])) if formats else "channels_last"
    spec["batch"] = draw(small)
    spec["implicit"] = draw(st.booleans())
    spec["data"] = draw(data(kinds))
    return spec


def kwargs(spec):
    family = spec["family"]
    kw = {}
    if family in ("conv", "convT"):
        kw = {
            "filters": spec["filters"],
            "kernel_size": compact(spec["kernel_size"]),
            "strides": compact(spec["strides"]),
            "dilation_rate": compact(spec["dilation_rate"]),
            "padding": spec["padding"],
            "use_bias": spec["bias"],
            "activation": spec["activation"],
        }
        defaults = (("strides", 1), ("dilation_rate", 1), ("use_bias", True), ("activation", None))
        if spec.get("keras_groups", 1) > 1:
            kw["groups"] = spec["keras_groups"]
    elif family == "pool":
        kw = {"pool_size": compact(spec["pool_size"]), "padding": spec["padding"], "strides": spec["strides"] and compact(spec["strides"])}
        defaults = (("strides", None), ("pool_size", 2))
    else:
        kw = {"keepdims": spec["keepdims"]}
        defaults = (("keepdims", False),)
    if family != "global":
        kw["subgroup"] = spec["sub"]
        kw["allow_non_equivariance"] = spec["allow"]
        defaults += (("allow_non_equivariance", False), ("subgroup", spec["group"]), ("padding", "valid_equiv"))
    kw["data_format"] = spec["data_format"]
    defaults += (("data_format", "channels_last"),)
    if spec["implicit"]:
        for key, default in defaults:
            if kw[key] == default:
                del kw[key]
    return kw


def make(spec, **extra):
    kw = {**kwargs(spec), **extra}
    if spec["family"] == "global":
        return construct(spec["cls"], **kw)
    if spec["family"] in ("conv", "convT"):
        if "kernel_initializer" not in kw:
            kw["kernel_initializer"] = initializer(spec["data"], "kernel")
            kw["bias_initializer"] = initializer(spec["data"], "bias")
    return construct(spec["cls"], spec["group"], spec["by"], **kw)


def domain_name(spec):
    """The group the input lives on, or None."""
    if not spec["valued"]:
        return None
    return spec["sub"] if spec["family"] == "convT" else spec["group"]


def target_name(spec):
    """The group the output lives on (None for global pooling)."""
    if spec["family"] == "global":
        return None
    return spec["group"] if spec["family"] == "convT" else spec["sub"]


def input_shape(spec, batch=None, size=None):
    """channels_last shape."""
    d = domain_name(spec)
    return (
        [spec["batch"] if batch is None else batch] + list(size or spec["size"]) + ([ref.order(d)] if d else []) + [spec["cin"]]
    )


def signal(spec, tag="x", size=None):
    """channels_last array."""
    return array(input_shape(spec, size=size), spec["data"], tag)


def to_format(spec, x):
    """channels_last array -> tensor in the data format of the spec."""
    return tensor(np.moveaxis(x, -1, 1) if spec["data_format"] == "channels_first" else x)


def shape_to_format(spec, shape):
    shape = list(shape)
    if spec["data_format"] == "channels_first":
        shape = [shape[0], shape[-1]] + shape[1:-1]
    return tuple(shape)


def from_format(spec, y, rank=None):
    """Output of the layer -> channels_last array."""
    y = numpy(y)
    if spec["family"] == "global" and not spec["keepdims"]:
        rank = 2
    rank = rank or spec["dim"] + 3
    require(y.ndim == rank, f"{spec['cls']} returned rank {y.ndim} (shape {y.shape}), expected {rank}")
    return np.moveaxis(y, 1, -1) if spec["data_format"] == "channels_first" else y


def strides_of(spec):
    return spec["strides"] or spec["pool_size"]


def accepts(spec, size=None):
    """Whether the documentation asks the layer to accept images of this size."""
    size = size or spec["size"]
    if spec["family"] == "conv":
        return ref.layer_padding(size, spec["kernel_size"], spec["strides"], spec["dilation_rate"], spec["padding"], spec["allow"]) is not None
    if spec["family"] == "pool":
        return ref.layer_padding(size, spec["pool_size"], strides_of(spec), [1] * spec["dim"], spec["padding"], spec["allow"]) is not None
    if spec["family"] == "convT":
        return spec["padding"] != "same" or spec["allow"] or all(
            ref.effective(k, d) % 2 for k, d in zip(spec["kernel_size"], spec["dilation_rate"])
        )
    return True


def make_acceptable(spec):
    """Change a drawn spec as little as possible into one the layer must accept."""
    if spec["family"] == "global":
        return spec
    if not accepts({**spec, "allow": spec["allow"] and spec["family"] != "convT"}):
        spec["padding"] = spec["padding"].split("_")[0] + "_equiv"
    if not accepts(spec):
        spec["strides"] = [1] * spec["dim"]
    assert accepts(spec), spec
    return spec


def expected(spec, x, weights):
    """The definition, on channels_last float64 arrays."""
    x = x.astype("float64")
    weights = [w.astype("float64") for w in weights]
    if spec["family"] in ("conv", "convT"):
        kernel, bias = weights[0], weights[1] if spec["bias"] else None
        domain = elements(domain_name(spec)) if spec["valued"] else None
        acting = elements(target_name(spec))
        if spec["family"] == "conv":
            return ref.group_conv(
                x, kernel, bias, acting, domain, spec["strides"], spec["dilation_rate"], spec["padding"], spec["allow"],
                spec["activation"], spec.get("keras_groups", 1),
            )
        return ref.group_conv_transpose(x, kernel, bias, acting, domain, spec["strides"], spec["padding"], spec["activation"], spec["dilation_rate"])
    if spec["family"] == "pool":
        return ref.group_pool(
            x, elements(spec["group"]), elements(spec["sub"]), coset_elements(spec["group"], spec["sub"]),
            spec["pool_size"], strides_of(spec), spec["padding"], spec["allow"], spec["kind"],
        )
    axes = tuple(range(1, spec["dim"] + 2))
    return (x.max if spec["kind"] == "max" else x.mean)(axis=axes, keepdims=spec["keepdims"])


def weights_of(layer):
    return [numpy(w) for w in layer.weights]


def transforms(spec, x, name, acting):
    """channels_last signal on the group `name` (None: the grid) -> array of the transformed signals, one per element."""
    axes = tuple(range(1, 1 + spec["dim"]))
    if name is None:
        return np.stack([ref.act(g, x, axes) for g in acting])
    return np.stack(ref.act_on_group_signal(x, axes, spec["dim"] + 1, acting, list(elements(name))))


def call_on_each(spec, layer, xs):
    """Apply the layer to xs of shape (m, batch, ...) in one call; returns (m, batch, ...)."""
    m, b = xs.shape[:2]
    y = from_format(spec, layer(to_format(spec, xs.reshape((m * b,) + xs.shape[2:]))))
    return y.reshape((m, b) + y.shape[1:])


def layer_labels(spec):
    out = [spec["cls"], spec["data_format"]]
    if "padding" in spec:
        out.append(spec["padding"])
        if max(spec["strides"] or [2]) > 1:
            out.append("strided")
    if spec["family"] in ("conv", "convT"):
        out.append("group signal" if spec["valued"] else "grid signal")
        if max(spec["dilation_rate"]) > 1:
            out.append("dilated")
        if spec.get("keras_groups", 1) > 1:
            out.append("keras groups")
        if spec["cin"] * spec["filters"] * int(np.prod(spec["kernel_size"])) * (ref.order(domain_name(spec)) if spec["valued"] else 1) > 2**16:
            out.append("over 2**16 weights")
        if any(k % 2 == 0 for k in spec["kernel_size"]):
            out.append("even kernel")
        if len(set(spec["kernel_size"])) > 1:
            out.append("anisotropic kernel")
    if np.prod(spec["size"]) > 1600 or spec["batch"] > 32:
        out.append("large")
    if len(set(spec["size"])) > 1:
        out.append("rectangular")
    if spec["sub"] != spec["group"]:
        out.append("proper subgroup")
    return out
