"""Generators and adapters shared by the properties.  A case is a JSON-able spec: small enough to read, and
everything (weights, signals) expands from it deterministically."""
import functools
import zlib

import jax
import keras
import numpy as np
from hypothesis import strategies as st

import groco.layers as gl
from gcheck import ref
from gcheck.engine import Violation, attempt, sut
from groco.groups import group_dict, space_groups, wallpaper_groups
from keras import ops

# ------------------------------------------------------------------------------------ arrays


def rng_for(*parts):
    return np.random.default_rng(zlib.crc32(repr(parts).encode()))


def array(shape, data, tag="x", low=-4, high=4):
    """Small integers, so that sums of products are exact in float32; some special signals."""
    shape = tuple(int(s) for s in shape)
    rng = rng_for(data["seed"], tag)
    kind = data.get("kind", "int")
    if kind == "int":
        a = rng.integers(low, high + 1, shape)
    elif kind == "negative":
        a = rng.integers(-9, 0, shape)
    elif kind == "positive":
        a = rng.integers(1, 10, shape)
    elif kind == "sparse":
        a = rng.integers(low, high + 1, shape) * (rng.random(shape) < 0.15)
    elif kind == "distinct":
        size = int(np.prod(shape))
        a = rng.permutation(size).reshape(shape) - size // 2
    elif kind == "float":
        a = rng.standard_normal(shape)
    else:
        raise ValueError(kind)
    return a.astype("float32")


seeds = st.integers(0, 10**6)


def data(kinds=("int", "float", "sparse")):
    return st.fixed_dictionaries({"kind": st.sampled_from(kinds), "seed": seeds})


def numpy(x):
    return np.asarray(ops.convert_to_numpy(x))


def same(actual, expected, what, tol=1e-4):
    actual, expected = np.asarray(actual), np.asarray(expected)
    if tuple(actual.shape) != tuple(expected.shape):
        raise Violation(f"{what}: shape {tuple(actual.shape)}, expected {tuple(expected.shape)}")
    if actual.size == 0:
        return
    a, e = actual.astype("float64"), expected.astype("float64")
    scale = 1 + float(np.max(np.abs(e)))
    diff = np.abs(a - e)
    diff = np.where(np.isnan(a) | np.isnan(e), np.where(np.isnan(a) & np.isnan(e), 0, np.inf), diff)
    diff = np.where(a == e, 0, diff)
    worst = float(np.max(diff))
    if not worst <= tol * scale:
        at = tuple(int(i) for i in np.unravel_index(int(np.argmax(diff)), diff.shape))
        raise Violation(f"{what}: {a[at]} instead of {e[at]} at {at} (shape {a.shape}, {int((diff > tol * scale).sum())} entries off)")


def exactly(actual, expected, what):
    actual, expected = np.asarray(actual), np.asarray(expected)
    if tuple(actual.shape) != tuple(expected.shape):
        raise Violation(f"{what}: shape {tuple(actual.shape)}, expected {tuple(expected.shape)}")
    if not np.array_equal(actual, expected):
        at = tuple(int(i) for i in np.argwhere(actual != expected)[0])
        raise Violation(f"{what}: {actual[at]} instead of {expected[at]} at {at} (shape {actual.shape})")


def require(condition, message):
    if not condition:
        raise Violation(message)


# ------------------------------------------------------------------------------------ groups


@functools.lru_cache(None)
def group(name):
    with sut(f"looking up the group {name}"):
        return group_dict[name]


@functools.lru_cache(None)
def elements(name):
    """The transformations the group applies, in its order, read off from its action on a probe signal."""
    n = ref.dims(name)
    probe = np.arange(3**n, dtype="int32").reshape((3,) * n)
    with sut(f"acting with {name} on a grid signal"):
        out = numpy(
            group(name).action(ops.convert_to_tensor(probe), spatial_axes=tuple(range(n)), new_group_axis=0, domain_group=None)
        )
    found = []
    for i in range(out.shape[0]):
        hits = [e for e in (ref._E2 if n == 2 else ref._E3) if np.array_equal(ref.act(e, probe, range(n)), out[i])]
        if len(hits) != 1:
            raise Violation(f"element {i} of {name} is no rotation or reflection of the grid")
        found.append(hits[0])
    if len(found) != ref.order(name) or set(found) != set(ref.DOCUMENTED[name]):
        raise Violation(f"{name} does not act by the symmetries it is documented to have")
    return tuple(found)


@functools.lru_cache(None)
def coset_elements(name, sub):
    """The coset representatives `name` lists for `sub`, as transformations."""
    with sut(f"reading the cosets of {sub} in {name}"):
        reps = [int(i) for i in group(name).cosets[sub]]
        return tuple(elements(name)[i] for i in reps)


PARTIALS = {
    ("GroupConv2D", g): getattr(gl, f"{g}Conv2D") for g in ref.NAMES_2D if hasattr(gl, f"{g}Conv2D")
}
PARTIALS.update({("GroupConv3D", g): getattr(gl, f"{g}Conv3D") for g in ref.NAMES_3D if hasattr(gl, f"{g}Conv3D")})
OBJECTS = {**{g: getattr(wallpaper_groups, g) for g in ref.NAMES_2D}, **{g: getattr(space_groups, g) for g in ref.NAMES_3D}}


# ------------------------------------------------------------------------------------ layers


def rename(kw):
    """JSON keeps no tuples; Keras wants tuples or lists: lists are passed as tuples unless marked."""
    return {k: tuple(v) if isinstance(v, list) else v for k, v in kw.items()}


def construct(cls, group_name=None, by="name", **kw):
    maker = getattr(gl, cls)
    kw = rename(kw)
    if group_name is None:
        return maker(**kw)
    if by == "partial" and (cls, group_name) in PARTIALS:
        return PARTIALS[(cls, group_name)](**kw)
    return maker(group=group_name if by == "name" else OBJECTS[group_name], **kw)


def tensor(x):
    x = ops.convert_to_tensor(x)
    if isinstance(x, np.ndarray):  # a backend that shares memory: what the caller gives must not be written to
        x = x.view()
        x.setflags(write=False)
    return x


def channels_first(x, channels_axis=-1):
    return np.moveaxis(x, channels_axis, 1)


def initializer(data, tag):
    """A Keras initializer giving integer weights (and saving the time to compile a random one)."""

    def init(shape, dtype=None, **kwargs):
        d = data if data.get("kind") in ("int", "float", "sparse") else {**data, "kind": "int"}
        return ops.convert_to_tensor(array(shape, d, tag, -3, 3), dtype=dtype)

    return init


def set_weights(layer, data, tag="w"):
    """Give all weights of a built layer integer values."""
    for i, w in enumerate(layer.weights):
        d = data if data.get("kind") in ("int", "float", "sparse") else {**data, "kind": "int"}
        w.assign(array(w.shape, d, f"{tag}{i}", -3, 3))


# ------------------------------------------------------------------------------------ drawing configurations

PADDINGS = ["valid_equiv", "same_equiv", "valid", "same"]


@st.composite
def per_axis(draw, values, sets, n, tie):
    """One draw per axis, equal within sets of axes the group mixes when `tie`."""
    out = [None] * n
    if not tie:
        sets = [(i,) for i in range(n)]
    iso = draw(st.integers(0, 2)) > 0
    v = draw(values)
    for s in sets:
        if not iso:
            v = draw(values)
        for i in s:
            out[i] = v
    return out


def adjust_sizes(ns, sets, ks, ss, ds, padding, reach=12):
    """Enlarge the sizes to ones the layer accepts, where there are any."""
    out = list(ns)
    for s in sets:
        for extra in range(reach):
            trial = [out[i] + extra for i in s]
            sub = [(ks[i], ss[i], ds[i]) for i in s]
            if ref.layer_padding(trial, *[list(t) for t in zip(*sub)], padding) is not None:
                for i, t in zip(s, trial):
                    out[i] = t
                break
    return out


small = st.sampled_from([1, 2, 2, 3])


@st.composite
def conv_config(draw, dim, group_name, tie=True, tie_kernel=True, transpose=False, aim=8, big=True):
    """Kernel size, strides, dilation, padding and image size for a (transposed) convolution."""
    sets = ref.mixed_axes(group_name)
    heavy = dim == 3
    kernel_values = st.sampled_from([1, 2, 3, 3, 4] if heavy else [1, 2, 2, 3, 3, 3, 4, 5, 7])
    ks = draw(per_axis(kernel_values, sets, dim, tie_kernel))
    padding = draw(st.sampled_from(PADDINGS))
    ss, ds = [1] * dim, [1] * dim
    if transpose:
        if padding.startswith("valid") and draw(st.booleans()):
            ss = list(ks)
        elif draw(st.integers(0, 4)) == 0:
            ds = draw(per_axis(st.sampled_from([1, 2, 3]), sets, dim, tie_kernel))
    else:
        mode = draw(st.integers(0, 4))
        if mode == 0:
            ds = draw(per_axis(st.sampled_from([1, 2, 2, 3] if heavy else [1, 2, 2, 3, 4]), sets, dim, tie_kernel))
        elif mode < 4:
            ss = draw(per_axis(st.sampled_from([1, 2, 2, 2, 3, 3, 4, 5, 6]), sets, dim, tie))
    span = 4 if heavy else 7
    ns = draw(per_axis(st.integers(0, span), sets, dim, tie))
    if not heavy and big and draw(st.integers(0, 14)) == 0:
        ns = [n + 16 for n in ns]
    if transpose:
        ns = [1 + n for n in ns]
    else:
        ns = [n + (ref.effective(k, d) if padding.startswith("valid") else 1) for n, k, d in zip(ns, ks, ds)]
        if tie:
            big_enough = {i: max(ns[j] for j in s) for s in sets for i in s}
            ns = [big_enough[i] for i in range(dim)]
        if draw(st.integers(0, 9)) < aim:
            ns = adjust_sizes(ns, sets if tie else [(i,) for i in range(dim)], ks, ss, ds, padding)
    return {"size": ns, "kernel_size": ks, "strides": ss, "dilation_rate": ds, "padding": padding}


def compact(v):
    """Equal entries as one int in half of the configurations is decided by the caller."""
    return v[0] if len(set(v)) == 1 else list(v)


@st.composite
def channel_counts(draw, group_name, valued, large=True):
    # mostly few different shapes: every new shape has to be compiled
    order = ref.order(group_name) if valued else 1
    cin, filters = draw(st.sampled_from([(1, 1), (1, 2), (2, 1)] if order >= 16 else [(1, 1), (2, 3), (2, 3), (3, 2), (1, 4)]))
    if large and order <= 8 and draw(st.integers(0, 11)) == 0:
        cin = draw(st.integers(1, 17))
        filters = draw(st.integers(1, 17))
    return cin, filters


@st.composite
def keras_groups(draw, cin, filters, seldom=7):
    """(groups, cin, filters) for Keras' option groups, which is mostly left at 1."""
    if draw(st.integers(0, seldom)):
        return 1, cin, filters
    groups = draw(st.sampled_from([2, 2, 3]))
    return groups, groups * draw(st.integers(1, 2)), groups * draw(st.integers(1, 2))


@st.composite
def wide_channel_counts(draw, group_name, valued):
    """So many channels that the kernel has more than 2**16 weights, and the output more than 2**8 channels."""
    order = ref.order(group_name) if valued else 1
    filters = draw(st.integers(257, 270))
    return -(-draw(st.integers(66000, 70000)) // (order * filters)), filters


# these strata draw kernels of more than 2**16 weights
WIDE = [("P1", "P1", False), ("P4", "P2", True), ("P4M", "P4", True), ("D4", "D4", True)]


@st.composite
def enlarged(draw, specs, sets, how=("size", "size", "axis", "batch")):
    """The spec of a layer, on an image of up to 150 points (30 in 3D) along some of its axes, or a batch of up to 150."""
    spec = draw(specs)
    dim = len(spec["size"])
    what = draw(st.sampled_from(how))
    if what == "batch":
        return {**spec, "batch": draw(st.integers(33, 150)), "size": spec["size"] if dim < 3 else [min(n, 6) for n in spec["size"]]}
    size = list(spec["size"])
    for s in sets if what == "size" else [draw(st.sampled_from(sets))]:
        extra = draw(st.integers(12, 26) if dim == 3 else st.integers(40, 140))
        for i in s:
            size[i] += extra
    spec = {**spec, "batch": 1, "cin": 1 if "filters" in spec else 2, "size": size}
    if "filters" in spec:
        spec["filters"] = 1
    if "keras_groups" in spec:
        spec["keras_groups"] = 1
    window, strides = spec.get("kernel_size") or spec.get("pool_size"), spec.get("strides") or spec.get("pool_size")
    if window and spec.get("family") != "convT":
        spec["size"] = adjust_sizes(size, sets, window, strides, spec.get("dilation_rate") or [1] * dim, spec["padding"])
    return spec


# these strata draw large images and batches
LARGE = [("P1", "P1", True), ("PMh", "PMh", False), ("P2MM", "PMw", True), ("P4", "P4", True), ("P4M", "P4M", False), ("D4", "D4", True), ("D4h", "D4", False)]


ACTIVATIONS = [None, None, "relu", "tanh", "sigmoid", "elu", "softplus"]


def compile_(function):
    return jax.jit(function) if keras.backend.backend() == "jax" else function


def under(how, function, x):
    """The function applied to x as it is, compiled, or vectorised over an extra first axis."""
    if keras.backend.backend() != "jax":
        return function(x)
    if how == "jit":
        return jax.jit(function)(x)
    if how == "vmap":
        return jax.vmap(function)(np.stack([numpy(x), numpy(x)[..., ::-1]]))[0]
    return function(x)
