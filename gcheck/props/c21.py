import numpy as np
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "Per class and group: a random layer and a signal that is zero except for a block (somewhere in a large image too), with margins wide enough for "
    "every move; up to four random combinations of an acting group element and a translation by a multiple of the "
    "stride are applied to the signal, and to the output (translated by the corresponding cells; the global poolings "
    "must not change at all, wherever the content goes). Non-trivial: the output is not constant, and some combination really translates."
)
ASSUMPTIONS = [
    "float32 on the JAX CPU backend; tolerance 1e-4 relative",
    "the content and everything it influences stay inside the image (translations of a finite image lose what leaves it)",
    "kernel unchanged by the whole group, image size and strides unchanged by the acting subgroup",
]
EXAMPLES = {"quick": 12, "thorough": 250}


def strata(tier):
    out = []
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        for family in ("conv", "convT", "pool"):
            out.append({"family": family, "group": g, "weight": 0.5 if heavy else 1})
        out.append({"family": "global", "group": g, "weight": 0.4})
    for g in sorted({g for g, _, _ in LARGE}):
        for family in ("conv", "convT", "pool", "global"):
            out.append({"family": family, "group": g, "large": True, "weight": 0.8 if family == "global" else 0.2})
    return out


def window(spec):
    """Per axis the size of the window in grid cells of the input."""
    if spec["family"] == "global":
        return [1] * spec["dim"]
    if spec["family"] == "pool":
        return list(spec["pool_size"])
    return [ref.effective(k, d) for k, d in zip(spec["kernel_size"], spec["dilation_rate"])]


def steps(spec):
    """Per axis the number of input cells that make the output move by one cell."""
    if spec["family"] in ("global", "convT"):
        return [1] * spec["dim"]
    return list(strides_of(spec))


@st.composite
def strategy(draw, stratum):
    g, family = stratum["group"], stratum["family"]
    sub = draw(st.sampled_from(ref.contained(g)))
    n = ref.dims(g)
    spec = draw(
        layer_spec(
            family, g, sub, valued=family in ("pool", "global") or draw(st.booleans()),
            kind=draw(st.sampled_from(["max", "average"])), allow=False, big=False, aim=0,
        )
    )
    spec["batch"] = 1
    if n == 3:
        for key in ("kernel_size", "pool_size"):
            if key in spec:
                spec[key] = [min(k, 3 if ref.order(g) < 24 else 2) for k in spec[key]]
        if family == "convT" and max(spec["strides"]) > 1:
            spec["strides"] = list(spec["kernel_size"])
        elif spec.get("strides"):
            spec["strides"] = [min(s, 2) for s in spec["strides"]]
        if family in ("conv", "convT"):
            spec["dilation_rate"] = [min(d, 2) for d in spec["dilation_rate"]]
    sets = ref.mixed_axes(sub)
    far = 1 if n == 3 else draw(st.integers(1, 3))
    block = draw(per_axis(st.integers(1, 2 if n == 3 else 4), sets, n, True))
    acting = ref.order(sub) if family != "global" else ref.order(g)
    moves = [
        {"element": draw(st.integers(0, acting - 1)), "by": [draw(st.integers(-far, far)) for _ in range(n)]}
        for _ in range(draw(st.integers(1, 4)))
    ]
    if family == "global":
        sets = ref.mixed_axes(g)
        block = [max(block)] * n
    margin = [w + far * s for w, s in zip(window(spec), steps(spec))]
    if family == "global":
        margin = [draw(st.integers(0, 3))] * n  # any place counts the same, also those at the border
    size = [b + 2 * m for b, m in zip(block, margin)]
    if stratum.get("large"):
        # the content is somewhere in a large image
        extra = draw(st.integers(2, 20) if n == 3 else st.integers(30, 120))
        size = [s + extra for s in size]
        margin = [m + draw(st.integers(0, extra)) for m in margin]
        spec["cin"] = 2 if family == "global" else 1
        if "filters" in spec:
            spec["filters"] = 1
        if spec.get("keras_groups"):
            spec["keras_groups"] = 1
    size = [max(size[j] for s in sets if i in s for j in s) for i in range(n)]
    if family in ("conv", "pool"):
        window_, steps_ = window(spec), steps(spec)
        size = adjust_sizes(size, sets, window_, steps_, [1] * n, spec["padding"])
    spec["size"] = size
    if family == "global":
        for move in moves:
            # anywhere, also to and across the borders
            move["by"] = [draw(st.one_of(st.integers(-s, s), st.sampled_from([-m, s - m - b]))) for s, m, b in zip(size, margin, block)]
    make_acceptable(spec)
    return {"layer": spec, "block": block, "margin": margin, "moves": moves}


def moved(x, by):
    """channels_last array, translated (what leaves on one side enters on the other)."""
    return np.roll(x, by, axis=tuple(range(1, 1 + len(by))))


def run(case):
    spec = case["layer"]
    n = spec["dim"]
    window_, steps_ = window(spec), steps(spec)
    x = np.zeros(input_shape(spec), "float32")
    place = tuple(slice(m, m + b) for m, b in zip(case["margin"], case["block"]))
    content = array((spec["batch"],) + tuple(case["block"]) + x.shape[1 + n:], spec["data"])
    x[(slice(None),) + place] = content
    with sut(f"constructing {spec['cls']}"):
        layer = make(spec)
    with sut(f"calling {spec['cls']}"):
        y = from_format(spec, layer(to_format(spec, x)))
    everything = elements(spec["group"] if spec["family"] == "global" else spec["sub"])
    acting = [everything[m["element"]] for m in case["moves"]]
    by = [m["by"] for m in case["moves"]]
    xs = transforms(spec, x, domain_name(spec), acting)
    xs = np.stack([moved(v, [s * t for s, t in zip(steps_, b)]) for v, b in zip(xs, by)])
    with sut(f"calling {spec['cls']} on the moved signals"):
        ys = call_on_each(spec, layer, xs)
    if spec["family"] == "global":
        want = np.stack([y] * len(by))
    else:
        factor = spec["strides"] if spec["family"] == "convT" else [1] * n
        want = transforms(spec, y, target_name(spec), acting)
        want = np.stack([moved(v, [s * t for s, t in zip(factor, b)]) for v, b in zip(want, by)])
    same(ys, want, f"{spec['cls']} of the moved signals, against the moved outputs")
    translated = any(any(b) for b in by)
    return {
        "nontrivial": translated and float(np.ptp(y)) > 0,
        "labels": layer_labels(spec) + (["translated"] if translated else []) + (["transformed"] if any(m["element"] for m in case["moves"]) else []),
    }
