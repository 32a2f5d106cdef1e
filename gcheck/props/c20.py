import keras
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403
from gcheck.network import Network, network

RULE = (
    "sizes: a layer of every class is used on a first image size and then on a random sequence of up to 4 other sizes "
    "(also ones that must be refused, and first sizes that are), eagerly, symbolically or compiled; each answer "
    "must be that of a fresh layer with the same weights, and that of the definition. batch: the output of a batch "
    "against those of its entries one by one, in another order and in other batch sizes. compiled: jitted (traced before "
    "or after the first eager use) and model.predict results against eager ones. reuse: one layer used for every step "
    "of a sequence by TimeDistributed, and at two places of one model, possibly on two image sizes, against the layer "
    "alone. network: whole random networks on batches, entries, jitted, and on an empty batch. Non-trivial: output not constant, and at least two sizes / batch entries."
)
ASSUMPTIONS = ["float32 on the JAX CPU backend; tolerance 1e-4 relative", "the layer is not built inside the user's own jit"]
EXAMPLES = {"quick": 8, "thorough": 200}


def strata(tier):
    out = []
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        for family in ("conv", "convT", "pool"):
            out.append({"kind": "sizes", "family": family, "group": g, "weight": 0.6 if heavy else 1.2})
            out.append({"kind": "batch", "family": family, "group": g, "weight": 0.4 if heavy else 0.7})
            out.append({"kind": "compiled", "family": family, "group": g, "weight": 0.4 if heavy else 0.6})
            out.append({"kind": "reuse", "family": family, "group": g, "weight": 0.3 if heavy else 0.6})
        out.append({"kind": "network", "family": "", "group": g, "weight": 0.3 if heavy else 0.6})
    for kind in ("sizes", "batch", "compiled", "reuse"):
        out.append({"kind": kind, "family": "global", "group": "P4M", "weight": 1})
    return out


@st.composite
def strategy(draw, stratum):
    g, family, kind = stratum["group"], stratum["family"], stratum["kind"]
    if kind == "network":
        net = draw(network(g, depth=3))
        net["batch"], net["batch_known"] = 3, False
        return {"kind": kind, "network": net, "predict_batch": draw(st.integers(1, 3))}
    sub = draw(st.sampled_from(ref.contained(g)))
    spec = draw(
        layer_spec(
            family, g, sub, valued=True if family in ("pool", "global") else draw(st.booleans()),
            kind=draw(st.sampled_from(["max", "average"])), tie=draw(st.sampled_from(["sub", "none"])) if family != "convT" else "sub",
            aim=7 if kind == "sizes" else 10, big=False,
        )
    )
    case = {"kind": kind, "layer": spec}
    if kind == "sizes":
        spec["batch"] = 1
        sizes = [list(spec["size"])]
        tied = draw(st.booleans())
        for _ in range(draw(st.integers(1, 4))):
            if draw(st.integers(0, 3)) == 0:
                sizes.append(list(spec["size"]))
                continue
            steps = draw(per_axis(st.integers(0, 5), ref.mixed_axes(sub), spec["dim"], tied))
            sizes.append([n + s for n, s in zip(spec["size"], steps)])
        if draw(st.booleans()):
            sizes = sizes[::-1]
        case["sizes"] = sizes
        case["how"] = [draw(st.sampled_from(["eager", "eager", "eager", "jit", "symbolic"])) for _ in sizes]
        return case
    make_acceptable(spec)
    if kind == "batch":
        spec["batch"] = draw(st.integers(2, 4))
        case["first"] = draw(st.sampled_from(["batch", "entries"]))
        case["empty"] = draw(st.sampled_from(["never", "before", "after"]))
    elif kind == "reuse":
        case["how"] = draw(st.sampled_from(["steps", "twice"]))
        case["steps"] = draw(st.integers(1, 3))
        case["second"] = draw(st.booleans())
        case["build"] = draw(st.sampled_from(["layer", "model"]))
    else:
        case["order"] = draw(st.sampled_from(["eager first", "built first", "model"]))
    return case


def fresh(spec, weights=None, size=None):
    with sut(f"constructing {spec['cls']}"):
        return make(spec)


def run_sizes(case):
    spec = case["layer"]
    layer = fresh(spec)
    regular = spec["family"] != "convT" or spec["padding"] != "same" or not spec["allow"]
    answers, refused = 0, 0
    varied = False
    for i, (size, how) in enumerate(zip(case["sizes"], case["how"])):
        s = {**spec, "size": size}
        x = signal(spec, f"x{i}", size=size)
        given = to_format(spec, x)
        twin = fresh(s)
        ok_t, want = attempt(twin, given)
        what = f"{spec['cls']} on size {size} ({how}, number {i} of {case['sizes']})"
        if how == "jit" and layer.built:
            ok, y = attempt(compile_(lambda v: layer(v)), given)
        elif how == "symbolic":
            ok, y = attempt(layer, keras.KerasTensor(tuple(given.shape)))
        else:
            ok, y = attempt(layer, given)
        require(ok or not ok_t, f"{what} refuses what a fresh layer accepts: {type(y).__name__}: {str(y)[:300]}")
        require(ok_t or not ok, f"{what} accepts what a fresh layer refuses: {type(want).__name__}: {str(want)[:300]}")
        if not ok:
            refused += 1
            continue
        answers += 1
        if how == "symbolic":
            require(tuple(y.shape) == tuple(want.shape), f"{what}: shape {tuple(y.shape)}, a fresh layer gives {tuple(want.shape)}")
            continue
        # same initialisers, hence same weights
        for a, b in zip(weights_of(layer), weights_of(twin)):
            exactly(a, b, "weights of the fresh layer")
        same(numpy(y), numpy(want), f"{what}, against a fresh layer")
        if regular:
            e = expected(s, x, weights_of(twin))
            if e is not None:
                same(from_format(spec, y), e, f"{what}, against the definition")
        varied = varied or float(np.ptp(numpy(want))) > 0
    distinct = len({tuple(s) for s in case["sizes"]}) > 1
    return {
        "nontrivial": varied and distinct and answers + refused > 1,
        "labels": ["sizes", spec["cls"]] + (["some refused"] if refused else []) + (["all refused"] if not answers else []),
    }


def run_batch(case):
    spec = case["layer"]
    x = signal(spec)
    layer = fresh(spec)
    none = to_format(spec, x[:0])
    with sut(f"calling {spec['cls']}, a batch without entries {case['empty']}"):
        if case["empty"] == "before":
            empty = from_format(spec, layer(none))
        if case["first"] == "batch":
            whole = from_format(spec, layer(to_format(spec, x)))
        parts = [from_format(spec, layer(to_format(spec, x[i:i + 1]))) for i in range(len(x))]
        if case["first"] == "entries":
            whole = from_format(spec, layer(to_format(spec, x)))
        turned = from_format(spec, layer(to_format(spec, x[::-1])))
        if case["empty"] == "after":
            empty = from_format(spec, layer(none))
    if case["empty"] != "never":
        require(empty.shape == (0, *whole.shape[1:]), f"a batch without entries gives shape {empty.shape}, entries {whole.shape[1:]}")
    require(whole.shape[0] == len(x), f"a batch of {len(x)} became one of {whole.shape[0]}")
    same(whole, np.concatenate(parts), f"{spec['cls']} on a batch, against its entries")
    same(turned[::-1], whole, f"{spec['cls']} on the batch in reverse")
    return {"nontrivial": float(np.ptp(whole)) > 0, "labels": ["batch", spec["cls"], case["first"]]}


def run_compiled(case):
    spec = case["layer"]
    x = to_format(spec, signal(spec))
    layer = fresh(spec)
    with sut(f"calling {spec['cls']} eagerly and compiled"):
        if case["order"] == "eager first":
            eager = numpy(layer(x))
            compiled = numpy(compile_(lambda v: layer(v))(x))
        elif case["order"] == "built first":
            layer.build(tuple(x.shape))
            compiled = numpy(compile_(lambda v: layer(v))(x))
            eager = numpy(layer(x))
        else:
            inputs = keras.Input(x.shape[1:])
            model = keras.Model(inputs, layer(inputs))
            compiled = model.predict(numpy(x), verbose=0)
            eager = numpy(layer(x))
    same(compiled, eager, f"{spec['cls']} compiled, against eager")
    with sut("calling eagerly again"):
        again = numpy(layer(x))
    exactly(again, eager, "eager result after compiled execution")
    return {"nontrivial": float(np.ptp(eager)) > 0, "labels": ["compiled", spec["cls"], case["order"]]}


def run_reuse(case):
    """One layer at several places of one model."""
    spec = case["layer"]
    what = f"{spec['cls']} used for {case['steps']} steps" if case["how"] == "steps" else f"{spec['cls']} used twice"
    layer = fresh(spec)
    sizes = [spec["size"]]
    if case["how"] == "twice" and case["second"]:
        # one more window (or, where strides differ from the size of the kernel, more of them) along every axis
        sizes.append([n + s for n, s in zip(spec["size"], spec.get("strides") or spec.get("pool_size") or [1] * spec["dim"])])
    else:
        sizes.append(spec["size"])
    xs = [signal(spec, f"x{i}", size=size) for i, size in enumerate(sizes if case["how"] == "twice" else [spec["size"]] * case["steps"])]
    given = [to_format(spec, x) for x in xs]
    if case["build"] == "layer":
        with sut(f"calling {spec['cls']}"):
            layer(given[0])
    if case["how"] == "twice":
        twin = fresh(spec)
        ok, _ = attempt(twin, given[1])
        if not ok:  # the second size is one to refuse, which is the business of `sizes`
            xs, given = [xs[0]] * 2, [given[0]] * 2
    with sut(what):
        if case["how"] == "steps":
            steps = keras.ops.stack(given, axis=1)
            wrapped = keras.layers.TimeDistributed(layer)
            if case["build"] == "layer":
                whole = wrapped(steps)
            inputs = keras.Input(steps.shape[1:])
            model = keras.Model(inputs, wrapped(inputs))
            if case["build"] == "model":
                whole = model(steps)
            shape = tuple(model.outputs[0].shape)
            got = [numpy(whole[:, i]) for i in range(len(xs))]
            predicted = numpy(model.predict(numpy(steps), verbose=0))
            predicted = [predicted[:, i] for i in range(len(xs))]
            require(shape == (None, *whole.shape[1:]), f"{what}: predicted shape {shape}, actual {tuple(whole.shape)}")
        else:
            inputs = [keras.Input(g.shape[1:]) for g in given]
            model = keras.Model(inputs, [layer(i) for i in inputs])
            got = [numpy(y) for y in model(given)]
            predicted = [numpy(y) for y in model.predict([numpy(g) for g in given], verbose=0)]
    with sut(f"calling {spec['cls']} alone"):
        alone = [numpy(layer(g)) for g in given]
    kept = layer.weights
    require(len(model.weights) == len(kept), f"{what}: the model has {len(model.weights)} weights, the layer {len(kept)}")
    for i, want in enumerate(alone):
        same(got[i], want, f"{what}, number {i}, against the layer alone")
        same(predicted[i], want, f"{what}, number {i} of predict, against the layer alone")
    return {"nontrivial": len(xs) > 1 and any(float(np.ptp(a)) > 0 for a in alone), "labels": ["reuse", spec["cls"], case["how"]]}


def run_network(case):
    spec = case["network"]
    net = Network(spec)
    x = net.signal()
    with sut("applying the network"):
        model = net.model()
        whole = net.back(model(tensor(net.given(x))))
        parts = np.concatenate([net.back(model(tensor(net.given(x[i:i + 1])))) for i in range(len(x))])
        predicted = net.back(model.predict(net.given(x), batch_size=case["predict_batch"], verbose=0))
        jitted = net.back(compile_(lambda v: model(v))(tensor(net.given(x))))
        empty = net.back(model(tensor(net.given(x[:0]))))
    require(empty.shape == (0, *whole.shape[1:]), f"the network gives shape {empty.shape} for a batch without entries")
    same(whole, parts, "the network on a batch, against its entries")
    same(predicted, whole, "predict, against calling the network")
    same(jitted, whole, "the jitted network, against the eager one")
    return {"nontrivial": float(np.ptp(whole)) > 0, "labels": ["network", f"{len(spec['layers'])} layers"]}


def run(case):
    runs = {"sizes": run_sizes, "batch": run_batch, "compiled": run_compiled, "reuse": run_reuse, "network": run_network}
    return runs[case["kind"]](case)
