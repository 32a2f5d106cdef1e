from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "Per pair (group, acting subgroup) and input kind: random layer (kernel, stride, dilation, padding, channels, "
    "filters, Keras groups, bias, activation, data format, spelling of the group), image sizes left unchanged by the acting group (also up to about 150 per axis), "
    "integer weights and signals. Every acting element transforms the input and the output (own numpy model); all "
    "pairs must agree whenever the layer accepts the input without allow_non_equivariance. Non-trivial: accepted, more "
    "than one acting element, and the output differs from its transform for some element."
)
ASSUMPTIONS = [
    "float32 on the JAX CPU backend; tolerance 1e-4 relative",
    "kernel unchanged by the whole group, image size and strides unchanged by the acting subgroup",
]
EXAMPLES = {"quick": 15, "thorough": 400}


def strata(tier):
    out = []
    for g, h in ref.PAIRS:
        for valued in (False, True):
            if h == "P1":
                weight = 0.2
            elif ref.order(g) >= 24 and valued:
                weight = 0.5
            else:
                weight = 1
            out.append({"group": g, "sub": h, "valued": valued, "weight": weight})
    for g, h, valued in LARGE:
        out.append({"group": g, "sub": h, "valued": valued, "large": True, "weight": 0.3})
    return out


def strategy(stratum):
    specs = layer_spec(
        "conv", stratum["group"], stratum["sub"], valued=stratum["valued"], tie="sub", allow=False,
    )
    return enlarged(specs, ref.mixed_axes(stratum["sub"])) if stratum.get("large") else specs


def run(spec):
    x = signal(spec)
    with sut(f"constructing {spec['cls']}"):
        layer = make(spec)
    ok, y = attempt(layer, to_format(spec, x))
    if not ok:  # whether it was right to refuse is C10
        return {"nontrivial": False, "labels": ["refused"]}
    with sut(f"calling {spec['cls']} again"):
        y = from_format(spec, y)
        acting = elements(spec["sub"])
        layer_g = call_on_each(spec, layer, transforms(spec, x, domain_name(spec), acting))
    g_layer = transforms(spec, y, target_name(spec), acting)
    same(layer_g, g_layer, f"{spec['cls']} of the transformed signals against the transformed outputs")
    return {
        "nontrivial": len(acting) > 1 and bool(np.any(g_layer != g_layer[:1])),
        "labels": layer_labels(spec) + ["accepted"],
    }
