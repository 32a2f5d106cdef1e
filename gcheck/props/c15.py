import jax
import keras
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut
from gcheck.layers import *  # noqa: F403
from gcheck.network import Network, network

RULE = (
    "Random networks (lifting, convolutions with subgroups, pooling to subgroups, transposed convolutions back up, "
    "pointwise layers, optional global pooling) with random weights: every element of the group kept by all layers "
    "transforms the input and the output and both must agree (invariance after global pooling). Part of them is "
    "trained (functional, sequential, or sequential without an Input; fit, train_on_batch) and checked again with the "
    "trained weights, which must be all that changed. In networks that are affine in each weight the gradient of each weight is "
    "compared with exact differences of the output. Non-trivial: more than one kept element and outputs not constant."
)
ASSUMPTIONS = ["float32 on the JAX CPU backend; tolerance 1e-4 relative, 1e-3 after training"]
EXAMPLES = {"quick": 9, "thorough": 160}


def strata(tier):
    out = []
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        for mode in ("equivariance", "gradient", "training"):
            w = {"equivariance": 1.5, "gradient": 0.6, "training": 0.7}[mode]
            out.append({"group": g, "mode": mode, "weight": w * (0.5 if heavy else 1)})
    return out


@st.composite
def strategy(draw, stratum):
    mode = stratum["mode"]
    spec = draw(network(stratum["group"], depth=4 if mode == "equivariance" else 3, formats=mode != "training"))
    spec["mode"] = mode
    if mode == "gradient":
        for s in spec["layers"]:
            s["activation"] = None
            if "kind" in s:
                s["kind"] = "average"
        spec["layers"] = [s for s in spec["layers"] if s["type"] != "pointwise"]
    if mode == "training":
        spec["style"] = draw(st.sampled_from(["functional", "sequential", "unbuilt"]))
        spec["training"] = draw(st.sampled_from(["fit", "train_on_batch"]))
        spec["optimizer"] = draw(st.sampled_from(["sgd", "adam"]))
        spec["batch"] = 2
        spec["batch_known"] = False
        spec["jit"] = draw(st.booleans())
    return spec


def check_equivariance(net, function, what, tol):
    spec = net.spec
    kept = net.kept()
    x = net.signal(tag=what)
    axes = tuple(range(1, 1 + net.dim))
    with sut("applying the network"):
        y = net.back(function(tensor(net.given(x))))
    global_ = spec["layers"][-1]["type"] == "global"
    elts = kept if len(kept) <= 12 else [kept[i] for i in rng_for(spec["data"]["seed"]).permutation(len(kept))[:12]]
    shape = x.shape
    xs = np.stack([ref.act(g, x, axes) for g in elts])
    b = shape[0]
    with sut("applying the network to the transformed signals"):
        ys = net.back(function(tensor(net.given(xs.reshape((-1,) + shape[1:])))))
    require(ys.shape[0] == b * len(elts), f"{what}: batch {b * len(elts)} became {ys.shape[0]}")
    ys = ys.reshape((len(elts), b) + ys.shape[1:])
    if global_:
        want = np.stack([y] * len(elts))
    else:
        require(y.ndim == net.dim + 3, f"output of shape {y.shape}")
        want = np.stack(ref.act_on_group_signal(y, axes, net.dim + 1, elts, list(elements(net.live))))
    same(ys, want, f"{what}: network of the transformed signals, against the transformed outputs", tol)
    return len(elts) > 1 and np.all(np.isfinite(y)) and float(np.ptp(y)) > 0, y


def check_gradients(net, model):
    spec = net.spec
    x = tensor(net.given(net.signal()))
    weights = list(model.trainable_variables)
    require(len(weights) == sum(len(l.weights) for l in net.layers), "the model misses weights of its layers")
    with sut("applying the model"):
        y = model(x)
        t = array(y.shape, {"kind": "int", "seed": spec["data"]["seed"]}, "t")

    def loss(values):
        out, _ = model.stateless_call(values, model.non_trainable_variables, x)
        return (out * t).sum()

    values = [w.value for w in weights]
    with sut("computing gradients"):
        grads = jax.grad(loss)(values)
    base = loss(values)
    for i, g in enumerate(grads):
        require(g is not None and g.shape == values[i].shape, f"no gradient for {weights[i].path}")
        v = array(values[i].shape, {"kind": "int", "seed": spec["data"]["seed"]}, f"v{i}", -1, 1)
        moved = list(values)
        moved[i] = values[i] + v
        change = float(loss(moved) - base)
        predicted = float((numpy(g).astype("float64") * v).sum())
        scale = 1 + abs(change) + abs(float(base)) + float(np.abs(numpy(g)).sum())
        require(
            abs(change - predicted) <= 1e-4 * scale,
            f"the gradient of {weights[i].path} predicts a change of {predicted}, it is {change}",
        )


def run(spec):
    net = Network(spec)
    labels = [spec["mode"], f"{len(spec['layers'])} layers"] + sorted({s["type"] for s in spec["layers"]})
    labels += ["invariant" if spec["layers"][-1]["type"] == "global" else "equivariant"]
    if spec["mode"] == "equivariance":
        nontrivial, _ = check_equivariance(net, net.apply, "initial weights", 1e-4)
        return {"nontrivial": nontrivial, "labels": labels}
    if spec["mode"] == "gradient":
        with sut("defining the model"):
            model = net.model("functional")
        check_gradients(net, model)
        nontrivial, _ = check_equivariance(net, model, "initial weights", 1e-4)
        return {"nontrivial": nontrivial, "labels": labels}
    # training
    x = net.given(net.signal(batch=4, tag="train"))
    with sut("defining the model"):
        model = keras.Sequential(net.layers) if spec["style"] == "unbuilt" else net.model()
        optimizer = keras.optimizers.SGD(0.001, clipnorm=1.0) if spec["optimizer"] == "sgd" else keras.optimizers.Adam(0.01)
        model.compile(optimizer=optimizer, loss="mse", jit_compile=spec["jit"])
    with sut("reading configurations"):
        configs = [l.get_config() for l in net.layers if hasattr(l, "group_transforms")]
    if spec["style"] == "unbuilt":
        target = array(net_output_shape(spec, 4), {"kind": "int", "seed": 1}, "t")
        before = None
    else:
        target = array((4,) + tuple(model.output_shape[1:]), {"kind": "int", "seed": 1}, "t")
        before = [numpy(w) for w in model.trainable_variables]
    with sut(f"training by {spec['training']}"):
        if spec["training"] == "fit":
            model.fit(x, target, batch_size=2, epochs=2, verbose=0, shuffle=False)
        else:
            for _ in range(2):
                model.train_on_batch(x, target)
    weights = list(model.trainable_variables)
    own = [w for l in net.layers for w in l.weights]
    require([id(w) for w in weights] == [id(w) for w in own], "training replaced weights")
    expected_count = sum(1 + s["bias"] for s in spec["layers"] if s["type"] in ("conv", "convT"))
    require(len(weights) == expected_count, f"{len(weights)} weights, expected {expected_count}")
    with sut("reading configurations"):
        require(
            str([l.get_config() for l in net.layers if hasattr(l, "group_transforms")]) == str(configs),
            "training changed a configuration",
        )
    moved = before is None or any(np.any(numpy(w) != b) for w, b in zip(weights, before))
    nontrivial, y = check_equivariance(net, model, "trained weights", 1e-3)
    with sut("predicting"):
        xs = net.given(net.signal(tag="trained weights"))
        p = net.back(model.predict(xs, verbose=0))
    same(p, y, "predictions after training, against calling the model", 1e-3)
    return {"nontrivial": nontrivial and moved, "labels": labels + [spec["style"], spec["training"]]}


def net_output_shape(spec, batch):
    probe = Network(spec)
    with sut("applying the layers"):
        y = probe.apply(tensor(probe.given(probe.signal(batch=1))))
    return (batch,) + tuple(y.shape[1:])
