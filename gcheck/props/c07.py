from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "Per pair (group, domain subgroup) and input kind: random transposed layer at stride 1 (any padding, dilation) or "
    "stride = kernel (valid), image sizes (also large ones) unchanged by the subgroup, integer weights and signals; (a) the output is "
    "compared with the plain-numpy definition, (b) every subgroup element transforms input and output and both must "
    "agree, (c) refusals must be exactly those of plain 'same' with an odd crop. Non-trivial: accepted and the output "
    "is not constant."
)
ASSUMPTIONS = [
    "float32 on the JAX CPU backend; tolerance 1e-4 relative",
    "other strides are documented not to keep equivariance and are not generated",
]
EXAMPLES = {"quick": 13, "thorough": 350}


def strata(tier):
    out = []
    for g, h in ref.PAIRS:
        for valued in (False, True):
            heavy = ref.order(g) >= 24 and valued
            out.append({"group": g, "sub": h, "valued": valued, "weight": 0.5 if heavy else 1})
    for g, h, valued in WIDE:
        out.append({"group": g, "sub": h, "valued": valued, "wide": True, "weight": 0.1})
    for g, h, valued in LARGE:
        out.append({"group": g, "sub": h, "valued": valued, "large": True, "weight": 0.3})
    return out


def strategy(stratum):
    specs = layer_spec(
        "convT", stratum["group"], stratum["sub"], valued=stratum["valued"], tie="sub", allow=False,
        wide=stratum.get("wide", False),
    )
    return enlarged(specs, ref.mixed_axes(stratum["sub"])) if stratum.get("large") else specs


def run(spec):
    x = signal(spec)
    with sut(f"constructing {spec['cls']}"):
        layer = make(spec)
    given = to_format(spec, x)
    if not accepts(spec):
        ok, _ = attempt(layer, given)
        require(not ok, "accepted plain 'same' padding that crops unevenly")
        return {"nontrivial": False, "labels": ["refused"]}
    with sut(f"calling {spec['cls']}"):
        y = from_format(spec, layer(given))
    order = ref.order(spec["sub"]) if spec["valued"] else 1
    kernel_shape = tuple(spec["kernel_size"]) + (spec["filters"], order * spec["cin"])
    require(tuple(layer.kernel.shape) == kernel_shape, f"kernel of shape {tuple(layer.kernel.shape)}, expected {kernel_shape}")
    weights = weights_of(layer)
    require(len(weights) == 1 + spec["bias"], f"{len(weights)} weights")
    same(y, expected(spec, x, weights), f"{spec['cls']} output")
    acting = elements(spec["sub"])
    with sut(f"calling {spec['cls']} again"):
        layer_g = call_on_each(spec, layer, transforms(spec, x, domain_name(spec), acting))
    g_layer = transforms(spec, y, target_name(spec), acting)
    same(layer_g, g_layer, f"{spec['cls']} of the transformed signals against the transformed outputs")
    return {"nontrivial": float(np.ptp(y)) > 0, "labels": layer_labels(spec) + ["accepted"]}
