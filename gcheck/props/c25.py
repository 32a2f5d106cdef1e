import jax
import numpy as np
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "Per class, group and transformation of JAX: a random layer and input. weights: stateless_call with other weights "
    "(eager, compiled, mapped over a stack of weights) against the numpy definition with those weights. map: vmap over an "
    "extra axis at any position, lax.map and scan over a sequence, against one call after the other. gradient: reverse and forward mode "
    "derivatives, with and without rematerialisation and compilation, for the input and every weight, against "
    "differences of the numpy definition in double precision along random directions (smooth activations, distinct values for max). "
    "Each time the stored weights must be left as they were, and the layer still gives the same result. Non-trivial: the result is not constant."
)
ASSUMPTIONS = [
    "the layer was built before (its variables cannot be created inside a transformation)",
    "float32 on the JAX CPU backend; derivatives to 1e-3 relative",
]
EXAMPLES = {"quick": 5, "thorough": 110}


def strata(tier):
    out = []
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        for kind in ("weights", "map", "gradient"):
            for family in ("conv", "convT") + (() if kind == "weights" else ("pool",)):
                out.append({"kind": kind, "family": family, "group": g, "weight": 0.6 if heavy else 1.2 if kind == "gradient" else 0.8})
    for kind in ("map", "gradient"):
        out.append({"kind": kind, "family": "global", "group": "P4", "weight": 1})
        out.append({"kind": kind, "family": "global", "group": "D4", "weight": 0.6})
    return out


@st.composite
def strategy(draw, stratum):
    family, g, kind = stratum["family"], stratum["group"], stratum["kind"]
    sub = draw(st.sampled_from(ref.contained(g)))
    spec = draw(
        layer_spec(
            family, g, sub, valued=family in ("pool", "global") or draw(st.booleans()),
            kind=draw(st.sampled_from(["max", "average"])), tie=draw(st.sampled_from(["sub", "none"])) if family != "convT" else "sub",
            aim=10, big=False, kinds=("int", "float"),
        )
    )
    make_acceptable(spec)
    case = {"kind": kind, "layer": spec, "jit": draw(st.booleans())}
    if kind == "weights":
        case["how"] = draw(st.sampled_from(["one", "stack"]))
        case["count"] = draw(st.integers(2, 3))
    elif kind == "map":
        case["how"] = draw(st.sampled_from(["vmap", "vmap", "vmap twice", "map", "scan"]))
        case["count"] = draw(st.integers(2, 3))
        case["axis"] = draw(st.integers(0, 3))
        case["out"] = draw(st.integers(0, 2))
        spec["batch"] = draw(st.integers(1, 2))
    else:
        case["mode"] = draw(st.sampled_from(["reverse", "forward"]))
        case["remat"] = draw(st.booleans())
        if spec.get("activation") in ("relu", "elu"):
            spec["activation"] = draw(st.sampled_from([None, "tanh", "softplus"]))
        if family in ("pool", "global"):
            spec["data"] = {"kind": "distinct", "seed": spec["data"]["seed"]}
    return case


def other_weights(spec, layer, tag):
    d = spec["data"] if spec["data"]["kind"] in ("int", "float") else {"kind": "int", "seed": spec["data"]["seed"]}
    return [array(w.shape, d, f"{tag}{i}", -3, 3) for i, w in enumerate(layer.weights)]


def run_weights(case, layer, x):
    spec = case["layer"]
    sets = [other_weights(spec, layer, f"other{k}") for k in range(case["count"] if case["how"] == "stack" else 1)]

    def function(values):
        return layer.stateless_call(values, [], to_format(spec, x))[0]

    with sut(f"calling {spec['cls']} with other weights"):
        if case["how"] == "one":
            f = jax.jit(function) if case["jit"] else function
            ys = [numpy(f([tensor(w) for w in sets[0]]))]
        else:
            f = jax.vmap(function)
            f = jax.jit(f) if case["jit"] else f
            ys = list(numpy(f([tensor(np.stack(ws)) for ws in zip(*sets)])))
    for y, ws in zip(ys, sets):
        same(from_format(spec, y), expected(spec, x, ws), f"{spec['cls']} with other weights")
    return ys[0]


def run_map(case, layer, x):
    spec = case["layer"]
    count = case["count"]
    xs = [signal(spec, f"x{k}") for k in range(count)]
    given = [numpy(to_format(spec, v)) for v in xs]
    how = case["how"]
    with sut(f"{how} of {spec['cls']}"):
        want = [numpy(layer(tensor(v))) for v in given]
        if how == "vmap":
            axis = min(case["axis"], given[0].ndim)
            out = min(case["out"], want[0].ndim)
            f = jax.vmap(lambda v: layer(v), in_axes=axis, out_axes=out)
            y = numpy((jax.jit(f) if case["jit"] else f)(np.stack(given, axis)))
            y = np.moveaxis(y, out, 0)
        elif how == "vmap twice":
            f = jax.vmap(jax.vmap(lambda v: layer(v)))
            y = numpy((jax.jit(f) if case["jit"] else f)(np.stack([np.stack(given), np.stack(given[::-1])])))
            same(y[1], y[0][::-1], f"{how} of {spec['cls']} in another order")
            y = y[0]
        elif how == "map":
            f = lambda v: jax.lax.map(lambda u: layer(u), v)  # noqa: E731
            y = numpy((jax.jit(f) if case["jit"] else f)(np.stack(given)))
        else:
            def step(total, v):
                u = layer(v)
                return total + u.sum(), u

            total, y = jax.lax.scan(step, np.float32(0), np.stack(given))
            y = numpy(y)
            e = sum(w.astype("float64").sum() for w in want)
            size = sum(np.abs(w.astype("float64")).sum() for w in want)
            require(abs(float(total) - e) <= 1e-4 * (1 + size), f"scan of {spec['cls']} carries {float(total)} instead of {e}")
    for a, b in zip(y, want):
        same(a, b, f"{how} of {spec['cls']}")
    return want[0]


def run_gradient(case, layer, x):
    spec = case["layer"]
    values = weights_of(layer)
    where = [to_format(spec, x)] + [tensor(w) for w in values]
    data_ = {"kind": "int", "seed": spec["data"]["seed"]}

    def function(parts):
        if not values:
            return layer(parts[0])
        return layer.stateless_call(parts[1:], [], parts[0])[0]

    f = jax.checkpoint(function) if case["remat"] else function
    with sut(f"derivatives of {spec['cls']}"):
        y = numpy(function(where))
    weight = array(y.shape, data_, "functional", -2, 2)
    dx = array(x.shape, data_, "direction", -1, 1)
    dw = [array(w.shape, data_, f"direction{i}", -1, 1) for i, w in enumerate(values)]
    # the definition, in double precision
    step = 1e-5

    def definition(sign, part):
        xs = x.astype("float64") + (sign * step * dx if part == 0 else 0)
        ws = [w.astype("float64") + (sign * step * d if part == i + 1 else 0) for i, (w, d) in enumerate(zip(values, dw))]
        return expected(spec, xs, ws)

    parts = range(1 + len(values))
    wanted = [(definition(1, p) - definition(-1, p)) / (2 * step) for p in parts]
    directions = [to_format(spec, dx)] + [tensor(d) for d in dw]
    with sut(f"{case['mode']} mode derivatives of {spec['cls']}"):
        if case["mode"] == "forward":
            def g(primals, tangents):
                return jax.jvp(f, (primals,), (tangents,))[1]

            g = jax.jit(g) if case["jit"] else g
            for p in parts:
                tangents = [d if i == p else d * 0 for i, d in enumerate(directions)]
                got = numpy(g(where, tangents))
                name = "input" if p == 0 else layer.weights[p - 1].path
                same(from_format(spec, got), wanted[p], f"derivative of {spec['cls']} in the direction of its {name}", 1e-3)
        else:
            g = jax.grad(lambda parts: (f(parts) * weight).sum())
            g = jax.jit(g) if case["jit"] else g
            grads = g(where)
            functional = from_format(spec, weight).astype("float64")
            for p in parts:
                got = float((numpy(grads[p]).astype("float64") * numpy(directions[p])).sum())
                want = float((functional * wanted[p]).sum())
                size = 1 + float((np.abs(functional) * np.abs(wanted[p])).sum()) + float((np.abs(numpy(grads[p])) * np.abs(numpy(directions[p]))).sum())
                name = "input" if p == 0 else layer.weights[p - 1].path
                require(abs(got - want) <= 1e-3 * size, f"gradient of {spec['cls']} for its {name}: slope {got} instead of {want}")
    return y


def run(case):
    spec = case["layer"]
    x = signal(spec)
    with sut(f"constructing and calling {spec['cls']}"):
        layer = make(spec)
        first = numpy(layer(to_format(spec, x)))
    objects, before = list(layer.weights), weights_of(layer)
    y = {"weights": run_weights, "map": run_map, "gradient": run_gradient}[case["kind"]](case, layer, x)
    require(
        len(layer.weights) == len(objects) and all(a is b for a, b in zip(layer.weights, objects)), "the list of weights changed"
    )
    if spec["family"] in ("conv", "convT"):
        require(layer.kernel is objects[0] and layer.filters == spec["filters"], "the layer was left with another kernel or number of filters")
    for w, b in zip(weights_of(layer), before):
        exactly(w, b, f"weight after {case['kind']}")
    with sut(f"calling {spec['cls']} again"):
        again = numpy(layer(to_format(spec, x)))
    exactly(again, first, f"{spec['cls']} called again after {case['kind']}")
    return {
        "nontrivial": float(np.ptp(y)) > 0,
        "labels": layer_labels(spec) + [case["kind"], case.get("how") or case.get("mode")] + (["jit"] if case["jit"] else []),
    }
