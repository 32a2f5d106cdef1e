import json
import sys
import threading

import keras
from hypothesis import strategies as st
from keras import ops

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403
from gcheck.network import Network, network

RULE = (
    "layer: one built layer of every class used by 2 to 4 threads, each with its own random sequence of operations "
    "(eager, compiled and symbolic calls on several inputs and sizes, calls that are refused or fail inside, reading "
    "weights, configuration and output shape). Two schedules: gated, where a chosen call stops inside the layer (in its "
    "activation function) until all operations of the other threads are over or evidently wait for it, and free, with a thread switch "
    "forced every few microseconds. Every result must be that of the same operation alone (calls: the numpy definition), "
    "and afterwards weights and results are what they were. network: a model used by several threads. group: actions, "
    "upsampling and tables of one group in several threads. Non-trivial: at least two threads whose results differ."
)
ASSUMPTIONS = [
    "the layer was built before (Keras itself does not support building a layer in several threads at once)",
    "a thread that waits for another one is no violation, unless a call takes longer than two minutes",
    "the weights are not changed meanwhile",
]
EXAMPLES = {"quick": 8, "thorough": 160}
PATIENCE = 120  # seconds after which a call counts as stuck
HOLD = 0.15  # seconds a gated call waits for the others, which may be waiting for it


def strata(tier):
    out = []
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        for family in ("conv", "convT"):
            for valued in (False, True):
                out.append({"kind": "layer", "family": family, "group": g, "valued": valued, "weight": 0.4 if heavy else 0.8})
        out.append({"kind": "layer", "family": "pool", "group": g, "valued": True, "weight": 0.4})
        out.append({"kind": "network", "group": g, "weight": 0.3 if heavy else 0.6})
        out.append({"kind": "group", "group": g, "weight": 0.6})
    return out


USES = ["call", "call", "call", "jit", "symbolic"]
OTHERS = ["weights", "config", "shape", "refused", "fails"]


@st.composite
def strategy(draw, stratum):
    g, kind = stratum["group"], stratum["kind"]
    threads = draw(st.integers(2, 4))
    if kind == "network":
        net = draw(network(g, depth=3))
        net["batch_known"] = False
        return {"kind": kind, "network": net, "threads": threads, "calls": draw(st.integers(1, 4))}
    if kind == "group":
        jobs = [
            [
                {"acting": draw(st.sampled_from(ref.contained(g))), "domain": draw(st.sampled_from([None] + ref.contained(g))),
                 "how": draw(st.sampled_from(["action", "action", "upsample", "derive"]))}
                for _ in range(draw(st.integers(1, 3)))
            ]
            for _ in range(threads)
        ]
        return {"kind": kind, "group": g, "jobs": jobs, "data": draw(data(("int", "distinct")))}
    family = stratum["family"]
    sub = draw(st.sampled_from(ref.contained(g)))
    spec = draw(
        layer_spec(
            family, g, sub, valued=stratum["valued"], kind=draw(st.sampled_from(["max", "average"])), aim=10,
            activations=False, kinds=("int",), big=False,
        )
    )
    make_acceptable(spec)
    if family == "conv" and spec["keras_groups"] == 1:
        spec["filters"], spec["cin"] = min(spec["filters"], 3), min(spec["cin"], 3)
    use = st.tuples(st.sampled_from(USES), st.integers(0, 1))
    other = st.tuples(st.sampled_from(OTHERS if family != "pool" else ["config", "refused"]), st.integers(0, 1))
    jobs = [
        [list(o) for o in draw(st.lists(st.one_of(use, use, other), min_size=1, max_size=3))] for _ in range(threads)
    ]
    gated = family != "pool" and draw(st.integers(0, 2)) > 0
    if gated:
        # the first call of the first thread stops inside
        jobs[0] = [[draw(st.sampled_from(["call", "call", "jit", "fails"])), 0]] + jobs[0][1:2]
    # an activation function that uses another layer
    nested = family != "pool" and draw(st.integers(0, 5)) == 0
    return {
        "kind": kind, "layer": spec, "jobs": jobs, "gated": gated, "nested": nested,
        "rounds": 1 if gated else draw(st.integers(1, 3)),
    }


class Interrupted(Exception):
    pass


def in_threads(jobs):
    """Run the functions, one per thread; returns their results."""
    results = [None] * len(jobs)
    errors = []
    start = threading.Barrier(len(jobs))

    def body(i):
        try:
            start.wait()
            results[i] = jobs[i]()
        except Exception as e:  # noqa: BLE001
            errors.append(e)

    threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(len(jobs))]
    interval = sys.getswitchinterval()
    sys.setswitchinterval(5e-6)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(PATIENCE)
    finally:
        sys.setswitchinterval(interval)
    require(not any(t.is_alive() for t in threads), f"calls in several threads did not return within {PATIENCE} s")
    if errors:
        raise errors[0]
    return results


class Activation:
    """relu, which can fail or stop, depending on the thread."""

    def __init__(self, inner=None):
        self.here = threading.local()
        self.inner = inner

    def get_config(self):
        return {}

    def __call__(self, v):
        stop = getattr(self.here, "stop", None)
        if stop is not None:
            self.here.stop = None
            stop()
        if getattr(self.here, "fails", False):
            raise Interrupted
        if self.inner is not None:
            self.inner(ops.ones((1, 4, 4, 1)))
        return ops.relu(v)


def run_layer(case):
    spec = case["layer"]
    extra, act = {}, None
    if spec["family"] != "pool":
        with sut("making the activation function"):
            act = Activation(gl.GroupConv2D(group="P4", filters=1, kernel_size=2) if case["nested"] else None)
            if act.inner is not None:
                act.inner(ops.ones((1, 4, 4, 1)))
        extra["activation"] = act
    with sut(f"constructing {spec['cls']}"):
        layer = make(spec, **extra)
    sizes = [spec["size"], [n + s for n, s in zip(spec["size"], [max(strides_of(spec))] * spec["dim"])]]
    if not accepts(spec, sizes[1]):
        sizes[1] = spec["size"]
    xs = [signal(spec, f"x{i}", size=s) for i, s in enumerate(sizes)]
    given = [to_format(spec, x) for x in xs]
    relu = {**spec, "activation": "relu"}
    with sut(f"calling {spec['cls']}"):
        alone = [numpy(layer(x)) for x in given]
        before = weights_of(layer)
    for x, y in zip(xs, alone):
        e = expected(relu, x, before)
        same(from_format(spec, y), e, f"{spec['cls']} in one thread")
    objects = list(layer.weights)
    config = read_config(layer, act)
    bad = np.concatenate([xs[0], xs[0]], axis=-2) if spec["valued"] else xs[0][..., 0]
    bad = to_format(spec, bad) if spec["valued"] else tensor(bad)
    what = f"{spec['cls']} in several threads"

    def operation(op, i):
        if op == "call":
            y = layer(given[i])
            same(numpy(y), alone[i], f"{what}, eager")
        elif op == "jit":
            y = compile_(lambda v: layer(v))(given[i])
            same(numpy(y), alone[i], f"{what}, compiled")
        elif op == "symbolic":
            y = layer(keras.KerasTensor(tuple(given[i].shape)))
            require(tuple(y.shape) == alone[i].shape, f"{what}: symbolic shape {tuple(y.shape)} instead of {alone[i].shape}")
        elif op == "weights":
            for a, b in zip(layer.get_weights(), before):
                exactly(a, b, f"weights read during a call of {spec['cls']}")
        elif op == "config":
            now = read_config(layer, act)
            require(now == config, f"configuration read during a call: {now} instead of {config}")
        elif op == "shape":
            shape = layer.compute_output_shape(tuple(given[i].shape))
            require(tuple(shape) == alone[i].shape, f"shape computed during a call: {tuple(shape)} instead of {alone[i].shape}")
        elif op == "refused":
            ok, _ = attempt(layer, bad)
            require(not ok, f"{what} accepted a wrong signal")
        elif op == "fails":
            act.here.fails = True
            try:
                ok, _ = attempt(layer, given[i])
            finally:
                act.here.fails = False
            require(not ok, f"{what}: a failing activation function went unnoticed")

    inside, others = threading.Event(), threading.Semaphore(0)

    def stop():
        inside.set()
        for _ in range(len(case["jobs"]) - 1):
            if not others.acquire(timeout=HOLD):
                break

    def job(k):
        def work():
            if case["gated"] and k == 0:
                act.here.stop = stop
            if case["gated"] and k > 0:
                inside.wait(5)
            try:
                for _ in range(case["rounds"]):
                    for op, i in case["jobs"][k]:
                        operation(op, i)
            finally:
                if k == 0:
                    inside.set()
                others.release()

        return work

    with sut(what):
        in_threads([job(k) for k in range(len(case["jobs"]))])
        after = [numpy(layer(x)) for x in given]
    require(
        len(layer.weights) == len(objects) and all(a is b for a, b in zip(layer.weights, objects)),
        f"{what} changed its list of weights",
    )
    if spec["family"] != "pool":
        require(layer.kernel is objects[0] and layer.filters == spec["filters"], f"{what} left it with another kernel or number of filters")
        require((layer.bias is objects[1]) if spec["bias"] else layer.bias is None, f"{what} left it with another bias")
    for a, b in zip(weights_of(layer), before):
        exactly(a, b, f"weight after {what}")
    for a, b in zip(after, alone):
        exactly(a, b, f"result after {what}")
    kinds = sorted({op for j in case["jobs"] for op, _ in j})
    return {
        "nontrivial": any(float(np.ptp(y)) > 0 for y in alone),
        "labels": layer_labels(spec) + kinds + ["gated" if case["gated"] else "free"] + (["nested"] if case["nested"] else []),
    }


def read_config(layer, act):
    config = dict(layer.get_config())
    for key in ("kernel_initializer", "bias_initializer", "activation"):
        config.pop(key, None)
    return json.dumps(config, sort_keys=True, default=str)


def run_network(case):
    net = Network(case["network"])
    xs = [net.given(net.signal(tag=f"x{k}")) for k in range(case["threads"])]
    with sut("the network in one thread"):
        model = net.model()
        alone = [numpy(model(tensor(x))) for x in xs]
        before = [numpy(w) for w in model.weights]

    def job(k):
        def work():
            return [numpy(model(tensor(xs[k]))) for _ in range(case["calls"])]

        return work

    with sut("the network in several threads"):
        results = in_threads([job(k) for k in range(case["threads"])])
        after = [numpy(model(tensor(x))) for x in xs]
    for want, again, got in zip(alone, after, results):
        for y in got:
            same(y, want, "the network in several threads")
        exactly(again, want, "the network after its use in several threads")
    for w, b in zip(model.weights, before):
        exactly(numpy(w), b, "weights of the network after its use in several threads")
    return {
        "nontrivial": any(a.shape == alone[0].shape and not np.array_equal(a, alone[0]) for a in alone[1:]),
        "labels": ["network", f"{case['threads']} threads"],
    }


def run_group(case):
    g = case["group"]
    n = ref.dims(g)
    whole = group(g)
    axes = tuple(range(1, n + 1))
    size = [3] * n

    def perform(j, tag):
        if j["how"] == "derive":
            from groco.groups import Group

            d = Group(name=j["acting"], order=ref.order(j["acting"]), parent=whole)
            return np.asarray(numpy(d.composition))
        if j["how"] == "upsample":
            name = j["domain"] or j["acting"]
            x = tensor(array([2] + size + [ref.order(name)], case["data"], tag))
            return numpy(whole.upsample(x, group_axis=n + 1, domain_group=name))
        shape = [2] + size + ([ref.order(j["domain"])] if j["domain"] else [])
        kw = {"spatial_axes": axes, "new_group_axis": n + 1, "domain_group": j["domain"], "acting_group": j["acting"]}
        if j["domain"]:
            kw["group_axis"] = n + 1
        return numpy(whole.action(tensor(array(shape, case["data"], tag)), **kw))

    with sut("using the group in one thread"):
        alone = [[perform(j, f"{k}") for j in jobs] for k, jobs in enumerate(case["jobs"])]

    def job(k):
        return lambda: [[perform(j, f"{k}") for j in case["jobs"][k]] for _ in range(2)]

    with sut("using the group in several threads"):
        results = in_threads([job(k) for k in range(len(case["jobs"]))])
    for want, rounds in zip(alone, results):
        for got in rounds:
            for a, b in zip(got, want):
                exactly(a, b, f"{g} used in several threads")
    return {"nontrivial": True, "labels": ["group"] + sorted({j["how"] for jobs in case["jobs"] for j in jobs})}


def run(case):
    return {"layer": run_layer, "network": run_network, "group": run_group}[case["kind"]](case)
