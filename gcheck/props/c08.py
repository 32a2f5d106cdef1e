from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "Per pair (group, subgroup), max/average, also 1D: random pool size, stride (also left out), padding, image size (also large), "
    "channels, data format, signals (also all negative); (a) the output is compared with the plain-numpy definition, "
    "(b) in 2D/3D every subgroup element transforms input and output and both must agree. Non-trivial: accepted, "
    "output not constant, and windows or cosets of more than one element."
)
ASSUMPTIONS = [
    "float32 on the JAX CPU backend; tolerance 1e-4 relative",
    "where extra padding is needed all padded cells count as zeros, else Keras's own padding is not counted",
]
EXAMPLES = {"quick": 16, "thorough": 400}


def strata(tier):
    out = []
    for i, (g, h) in enumerate(ref.PAIRS):
        for kind in ("max", "average"):
            out.append({"group": g, "sub": h, "kind": kind, "weight": 1})
            if i % 3 == 0 or g == h:
                out.append({"group": g, "sub": h, "kind": kind, "dim": 1, "weight": 0.6})
    for g, h, _ in LARGE:
        for kind in ("max", "average"):
            out.append({"group": g, "sub": h, "kind": kind, "large": True, "weight": 0.3})
    return out


def strategy(stratum):
    specs = st.booleans().flatmap(
        lambda tied: layer_spec(
            "pool", stratum["group"], stratum["sub"], kind=stratum["kind"], dim=stratum.get("dim"),
            tie="sub" if tied or stratum.get("dim") is None else "none", kinds=("int", "negative", "distinct", "float"),
        )
    )
    return enlarged(specs, ref.mixed_axes(stratum["sub"])) if stratum.get("large") else specs


def run(spec):
    x = signal(spec)
    with sut(f"constructing {spec['cls']}"):
        layer = make(spec)
    given = to_format(spec, x)
    if not accepts(spec):
        ok, _ = attempt(layer, given)
        if ok and not spec["allow"]:
            require(False, "accepted a padding that does not keep equivariance")
        return {"nontrivial": False, "labels": ["refused"]}
    with sut(f"calling {spec['cls']}"):
        y = from_format(spec, layer(given))
    definition = expected(spec, x, [])
    same(y, definition, f"{spec['cls']} output")
    labels = layer_labels(spec)
    if spec["dim"] > 1 and not spec["allow"]:
        acting = elements(spec["sub"])
        with sut(f"calling {spec['cls']} again"):
            layer_g = call_on_each(spec, layer, transforms(spec, x, domain_name(spec), acting))
        g_layer = transforms(spec, y, target_name(spec), acting)
        same(layer_g, g_layer, f"{spec['cls']} of the transformed signals against the transformed outputs")
        labels.append("equivariance checked")
    extra = ref.extra_padding(spec["size"], spec["pool_size"], strides_of(spec), [1] * spec["dim"], spec["padding"], spec["allow"])
    if any(e != (0, 0) for e in extra):
        labels.append("extra padding")
    if spec["strides"] is None:
        labels.append("default strides")
    return {
        "nontrivial": y.size > 1 and float(np.ptp(y)) > 0 and (max(spec["pool_size"]) > 1 or spec["group"] != spec["sub"]),
        "labels": labels,
    }
