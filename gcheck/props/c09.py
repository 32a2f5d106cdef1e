from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "Per group, max/average and 1D/2D/3D: random image size (rectangular too, up to about 150 per axis), batch (up to 150), channels, keepdims, data format "
    "and signals; the output is compared with numpy's max or mean over grid and group, and must not change when any "
    "group element transforms the input (in 2D and 3D, sizes unchanged by the group). Non-trivial: more than one "
    "entry is reduced and the output is not constant."
)
ASSUMPTIONS = ["float32 on the JAX CPU backend; tolerance 1e-4 relative"]
EXAMPLES = {"quick": 40, "thorough": 1200}


def strata(tier):
    out = []
    for g in ref.NAMES:
        for kind in ("max", "average"):
            for dim in (1, 2, 3):
                out.append({"group": g, "kind": kind, "dim": dim, "weight": 1 if dim == ref.dims(g) else 0.25})
    for g, _, _ in LARGE:
        for kind in ("max", "average"):
            out.append({"group": g, "kind": kind, "dim": ref.dims(g), "large": True, "weight": 0.1})
    return out


def strategy(stratum):
    specs = st.integers(0, 3).flatmap(
        lambda t: layer_spec(
            "global", stratum["group"], stratum["group"], kind=stratum["kind"], dim=stratum["dim"],
            tie="none" if t == 0 else "sub", kinds=("int", "negative", "distinct", "float", "positive"),
        )
    )
    return enlarged(specs, ref.mixed_axes(stratum["group"])) if stratum.get("large") else specs


def run(spec):
    x = signal(spec)
    with sut(f"constructing {spec['cls']}"):
        layer = make(spec)
    with sut(f"calling {spec['cls']}"):
        y = from_format(spec, layer(to_format(spec, x)))
    same(y, expected(spec, x, []), f"{spec['cls']} output")
    labels = [spec["cls"], spec["data_format"], f"keepdims {spec['keepdims']}"]
    if np.prod(spec["size"]) > 1600 or spec["batch"] > 32:
        labels.append("large")
    g = spec["group"]
    invariant = spec["dim"] == ref.dims(g) and all(
        len({spec["size"][i] for i in s}) == 1 for s in ref.mixed_axes(g)
    )
    if invariant:
        xs = transforms(spec, x, g, elements(g))
        with sut(f"calling {spec['cls']} on transformed signals"):
            ys = call_on_each(spec, layer, xs)
        same(ys, np.stack([y] * len(xs)), f"{spec['cls']} of the transformed signals")
        labels.append("invariance checked")
    return {"nontrivial": int(np.prod(x.shape[1:-1])) > 1 and y.size > 1 and float(np.ptp(y)) > 0, "labels": labels}
