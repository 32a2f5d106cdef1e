from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403
from groco.utils import check_equivariance

RULE = (
    "callable: random functions (masks, shifts, lifts to a group, sums over the group, nonlinear ones) from signals on "
    "the grid or a subgroup to the grid or a subgroup, random positions of spatial and group axes (from the front or the end) and random acting "
    "group; the returned number must be the maximum the plain-numpy model finds over all acting elements and entries. "
    "layer: random convolution, transposed convolution and pooling layers, the group given or read off the layer, some "
    "made non-equivariant with allow_non_equivariance. refuse: signals or outputs whose group axis has another size. "
    "Non-trivial: a non-zero deviation, a refusal, or an equivariant layer with a non-constant output."
)
ASSUMPTIONS = ["the group leaves the shape of the grid unchanged", "float32; tolerance 1e-4 relative to the output"]
EXAMPLES = {"quick": 16, "thorough": 350}


def strata(tier):
    out = []
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        out.append({"kind": "callable", "group": g, "weight": 2 if not heavy else 1})
        out.append({"kind": "layer", "group": g, "weight": 1.5 if not heavy else 0.5})
        out.append({"kind": "refuse", "group": g, "weight": 0.6})
    return out


def subs_or_none(g):
    return st.sampled_from([None] + ref.contained(g))


@st.composite
def strategy(draw, stratum):
    g, kind = stratum["group"], stratum["kind"]
    n = ref.dims(g)
    sets = ref.mixed_axes(g)
    if kind == "layer":
        family = draw(st.sampled_from(["conv", "conv", "convT", "pool"]))
        sub = draw(st.sampled_from(ref.contained(g)))
        spec = draw(layer_spec(family, g, sub, valued=family == "pool" or draw(st.booleans()), kind=draw(st.sampled_from(["max", "average"])), tie="sub", aim=10, formats=True))
        # check_equivariance acts on the signal from within the whole group
        for s in sets:
            for i in s:
                spec["size"][i] = max(spec["size"][j] for j in s)
                if spec["strides"]:
                    spec["strides"][i] = spec["strides"][s[0]]
                if "pool_size" in spec:
                    spec["pool_size"][i] = spec["pool_size"][s[0]]
        make_acceptable(spec)
        spec["batch"] = min(spec["batch"], 2)
        return {"kind": kind, "layer": spec, "read_off": draw(st.booleans()), "how": draw(st.sampled_from(["eager"] * 4 + ["jit", "vmap"])), "acting": draw(st.sampled_from(ref.contained(sub)))}
    domain, target = draw(subs_or_none(g)), draw(subs_or_none(g))
    if kind == "refuse" and domain is None and target is None:
        target = g
    # batch first; one channel axis
    rank = n + 2 + (domain is not None or target is not None)
    if draw(st.booleans()):
        order = list(range(1, rank))
    else:
        order = [a + 1 for a in draw(st.permutations(range(rank - 1)))]
    axes = order[:n]
    if draw(st.booleans()):
        axes = sorted(axes)
    if domain is None and target is not None or domain is not None and target is None:
        # with one signal on the grid the spatial axes must be in the same place with and without the group axis
        axes, group_axis = list(range(1, n + 1)), n + 1 if draw(st.booleans()) else n + 2
    else:
        group_axis = next(a for a in order if a not in axes) if domain is not None else None
    size = draw(per_axis(st.integers(1, 4), sets, n, True))
    return {
        "kind": kind,
        "group": g,
        "domain": domain,
        "target": target,
        "acting": draw(st.sampled_from(ref.contained(g))),
        "axes": axes,
        "group_axis": group_axis,
        "rank": rank,
        "size": size,
        "batch": draw(small),
        "cin": draw(st.integers(1, 2)),
        "function": draw(st.sampled_from(["mask", "identity", "square", "roll", "cumsum", "bump"])),
        "wrong": draw(st.sampled_from(["domain", "target"])),
        "implicit": draw(st.booleans()),
        "negative": (domain is None) == (target is None) and draw(st.integers(0, 3)) == 0,
        "data": draw(data(("int", "distinct", "float"))),
    }


def acted(x, axes, group_axis, acting, name):
    if name is None:
        return [ref.act(e, x, axes) for e in acting]
    return ref.act_on_group_signal(x, axes, group_axis, acting, list(elements(name)))


def make_function(spec, shape, domain_size, target_size):
    """A function on batches, in plain numpy operations that also work on tensors."""
    group_axis = spec["group_axis"]
    kind = spec["function"]
    tag = {"kind": "int", "seed": spec["data"]["seed"]}
    out_shape = list(shape)
    if domain_size is not None and target_size is None:
        out_shape.pop(group_axis)
    elif domain_size is None and target_size is not None:
        out_shape.insert(group_axis, target_size)
    elif domain_size is not None:
        out_shape[group_axis] = target_size
    mask = array(out_shape[1:], tag, "mask", -2, 2)

    def f(x):
        x = np.asarray(x)
        if domain_size is not None and target_size is None:
            x = x.sum(axis=group_axis)
        elif domain_size is None and target_size is not None:
            x = np.repeat(np.expand_dims(x, group_axis), target_size, group_axis)
        elif domain_size is not None and domain_size != target_size:
            x = np.repeat(x.sum(axis=group_axis, keepdims=True), target_size, group_axis)
        if kind == "mask":
            return x * mask
        if kind == "square":
            return x * x
        if kind == "roll":
            return np.roll(x, 1, axis=spec["axes"][0])
        if kind == "cumsum":
            return np.cumsum(x, axis=spec["axes"][-1]).astype("float32")
        if kind == "bump":  # wrong in a single entry
            y = x.copy()
            y[(slice(None),) + tuple(int(i) for i in np.unravel_index(spec["data"]["seed"] % mask.size, mask.shape))] += 1
            return y
        return x

    return f


def run_callable(spec):
    g = spec["group"]
    axes, group_axis = tuple(spec["axes"]), spec["group_axis"]
    domain, target = spec["domain"], spec["target"]
    sizes = [None if d is None else ref.order(d) for d in (domain, target)]
    rank = spec["rank"]
    if domain is None and target is not None:
        rank -= 1
    shape = [spec["cin"]] * rank
    shape[0] = spec["batch"]
    for a, s in zip(axes, spec["size"]):
        shape[a] = s
    refuse = spec["kind"] == "refuse"
    real = list(sizes)
    if refuse:
        if sizes[0] is None or (sizes[1] is not None and spec["wrong"] == "target"):
            real[1] += 1
        else:
            real[0] += 1
    if domain is not None:
        shape[group_axis] = real[0]
    f = make_function(spec, shape, real[0], real[1])
    x = array(shape, spec["data"])
    kw = {"group": group(g), "spatial_axes": axes, "group_axis": group_axis, "acting_group": spec["acting"], "domain_group": domain, "target_group": target}
    if spec.get("negative"):
        kw["spatial_axes"] = tuple(a - len(shape) for a in axes)
        if group_axis is not None:
            kw["group_axis"] = group_axis - len(shape)
    if spec["implicit"]:
        for key in ("acting_group", "domain_group", "target_group"):
            if kw[key] == g:
                del kw[key]
        if axes == (1, 2):
            del kw["spatial_axes"]
    calls = []

    def layer(t):
        calls.append(tuple(t.shape))
        return tensor(f(numpy(t)))

    if refuse:
        ok, value = attempt(lambda: float(check_equivariance(layer, tensor(x), **kw)))
        require(not ok, f"accepted a group axis of size {real} where {sizes} is stated, returning {value}")
        return {"nontrivial": True, "labels": ["refused", g]}
    with sut("check_equivariance"):
        value = float(check_equivariance(layer, tensor(x), **kw))
    acting = elements(spec["acting"])
    after = np.stack([f(v).astype("float64") for v in acted(x, axes, group_axis, acting, domain)])
    before = np.stack(acted(f(x).astype("float64"), axes, group_axis, acting, target))
    want = float(np.max(np.abs(after - before)))
    scale = 1 + float(np.max(np.abs(after)))
    require(abs(value - want) <= 1e-5 * scale, f"returned {value}, the largest deviation is {want}")
    return {
        "nontrivial": want > 1e-5 * scale,
        "labels": [spec["function"], "deviation" if want > 1e-5 * scale else "no deviation", f"{domain is not None:d}->{target is not None:d}"],
    }


def run_layer(case):
    spec = case["layer"]
    with sut(f"constructing {spec['cls']}"):
        layer = make(spec)
    first = spec["data_format"] == "channels_first"
    n = spec["dim"]
    axes = tuple(range(2, 2 + n)) if first else tuple(range(1, 1 + n))
    group_axis = n + 2 if first else n + 1
    domain, target = domain_name(spec), target_name(spec)
    x = signal(spec)
    given = to_format(spec, x)
    kw = {"spatial_axes": axes, "group_axis": group_axis, "acting_group": case["acting"], "domain_group": domain, "target_group": target}
    if not case["read_off"]:
        kw["group"] = group(spec["group"])
    with sut("calling the layer"):
        y = from_format(spec, layer(given))
    with sut("check_equivariance"):
        value = float(under(case.get("how", "eager"), lambda v: check_equivariance(layer, v, **kw), given))
    acting = elements(case["acting"])
    with sut("calling the layer"):
        after = call_on_each(spec, layer, transforms(spec, x, domain, acting))
    before = transforms(spec, y, target, acting)
    want = float(np.max(np.abs(after.astype("float64") - before)))
    scale = 1 + float(np.max(np.abs(before)))
    require(abs(value - want) <= 1e-4 * scale, f"returned {value}, the largest deviation is {want}")
    deviates = want > 1e-4 * scale
    return {"nontrivial": deviates or float(np.ptp(y)) > 0, "labels": [spec["cls"], "deviation" if deviates else "no deviation"]}


def run(spec):
    return run_layer(spec) if spec["kind"] == "layer" else run_callable(spec)
