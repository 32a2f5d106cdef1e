import jax
import keras
from hypothesis import strategies as st
from keras import ops

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "plain: P1 layers (convolution with Keras groups, transposed convolution with any stride, pooling, global pooling) "
    "with random options, integer weights and signals (arrays and tensors of any dtype) against the Keras layer of the same name; padding 'same'/'valid' "
    "as is, the equivariant ones against Keras on the explicitly padded input. options: layers on every group with a "
    "random selection of Keras options: initialisers against the same seeded Keras layer on the merged channels, "
    "regularisation and activity losses against their formulas, constraints after an optimiser step, trainable, name, "
    "dtype policies by argument or setting (dtype of weights and output, values near the float32 ones), activations given as name, function "
    "or layer. double: layers with dtype float64 in JAX' 64 bit mode, on values that single precision cannot represent, to "
    "1e-11 relative. ways: the group by name, object and ready-made constructor. Non-trivial: output not constant."
)
ASSUMPTIONS = ["float32 on the JAX CPU backend; 16 bit policies are compared to their rounding errors"]
EXAMPLES = {"quick": 9, "thorough": 220}


def strata(tier):
    out = []
    for family in FAMILIES:
        for part in range(3):
            out.append({"kind": "plain", "family": family, "group": "P1", "weight": 2 if family != "global" else 1})
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        for family in FAMILIES:
            out.append({"kind": "options", "family": family, "group": g, "weight": 0.5 if family == "global" else (0.6 if heavy else 1.2)})
            out.append({"kind": "double", "family": family, "group": g, "weight": 0.2 if family == "global" or heavy else 0.4})
        out.append({"kind": "ways", "family": "conv", "group": g, "weight": 0.4})
        out.append({"kind": "ways", "family": "pool", "group": g, "weight": 0.4})
    out.append({"kind": "options", "family": "pool", "group": "P4M", "dim": 1, "weight": 1})
    return out


ACTIVATION_STYLES = {
    "name": "relu",
    "function": keras.activations.relu,
    "lambda": lambda v: ops.maximum(v, 0),
    "tanh": "tanh",
}


@st.composite
def strategy(draw, stratum):
    g, family, kind = stratum["group"], stratum["family"], stratum["kind"]
    sub = draw(st.sampled_from(ref.contained(g)))
    spec = draw(
        layer_spec(
            family, g, sub, valued=True if family in ("pool", "global") else draw(st.booleans()),
            kind=draw(st.sampled_from(["max", "average"])), dim=stratum.get("dim"),
            tie="none" if kind == "plain" and family in ("conv", "pool") else "sub", aim=10,
        )
    )
    if kind == "plain":
        if family in ("conv", "convT", "pool") and draw(st.booleans()):
            spec["padding"], spec["allow"] = draw(st.sampled_from(["same", "valid"])), True
            if spec["padding"] == "valid" and family != "convT":
                ks = spec.get("kernel_size") or spec["pool_size"]
                ds = spec.get("dilation_rate") or [1, 1]
                spec["size"] = [max(n, ref.effective(k, d)) for n, k, d in zip(spec["size"], ks, ds)]
            if family == "convT" and draw(st.booleans()):
                spec["dilation_rate"] = [1, 1]
                spec["strides"] = draw(per_axis(st.integers(1, 4), [(0,), (1,)], 2, False))
        spec["keras_groups"] = 1
        if family == "conv":
            spec["keras_groups"], spec["cin"], spec["filters"] = draw(keras_groups(spec["cin"], spec["filters"], 3))
        case = {"kind": kind, "layer": spec}
        if draw(st.integers(0, 2)) == 0:
            case["input_dtype"] = draw(st.sampled_from(["int32", "uint8", "int8", "bool", "float16", "float64"]))
            case["as_tensor"] = draw(st.booleans())
        return case
    make_acceptable(spec)
    case = {"kind": kind, "layer": spec}
    if kind == "double":
        case["jit"] = draw(st.booleans())
        return case
    if kind == "ways":
        spec["batch"] = 1
        return case
    o = {}
    if draw(st.booleans()):
        o["dtype"] = draw(st.sampled_from(["float16", "bfloat16", "mixed_float16", "mixed_bfloat16", "float32"]))
        if draw(st.integers(0, 2)) == 0:
            case["dtype_by"] = "setting"
    if draw(st.booleans()):
        o["name"] = draw(st.sampled_from(["conv_one", "x"]))
    if draw(st.integers(0, 2)) == 0:
        o["trainable"] = draw(st.booleans())
    if family in ("conv", "convT"):
        if draw(st.booleans()):
            o["activation"] = draw(st.sampled_from(sorted(ACTIVATION_STYLES)))
        if draw(st.booleans()):
            o["initializer"] = draw(st.sampled_from(["ones", "constant", "seeded normal", "seeded glorot"]))
        for key in ("kernel_regularizer", "bias_regularizer", "activity_regularizer"):
            if draw(st.integers(0, 2)) == 0:
                o[key] = draw(st.sampled_from(["l1", "l2"]))
        for key in ("kernel_constraint", "bias_constraint"):
            if draw(st.integers(0, 2)) == 0:
                o[key] = draw(st.sampled_from(["non_neg", "unit_norm"]))
    case["options"] = o
    return case


def plain_layer(spec):
    kw = rename(kwargs({**spec, "implicit": False}))
    kw.pop("subgroup", None)
    kw.pop("allow_non_equivariance", None)
    if "padding" in kw:
        kw["padding"] = kw["padding"].removesuffix("_equiv")
    name = spec["cls"].replace("Group", "")
    if spec["family"] in ("conv", "convT"):
        kw["kernel_initializer"] = initializer(spec["data"], "kernel")
        kw["bias_initializer"] = initializer(spec["data"], "bias")
        if spec["family"] == "conv":
            kw["groups"] = spec["keras_groups"]
    return getattr(keras.layers, name)(**kw)


def run_plain(case):
    spec = case["layer"]
    x = signal(spec)
    dtype, as_tensor = case.get("input_dtype", "float32"), case.get("as_tensor", True)
    x = x.astype(dtype)

    def given(x):
        # an array of any dtype, or one that was made a tensor
        x = np.moveaxis(x, -1, 1) if spec["data_format"] == "channels_first" else x
        return tensor(x) if as_tensor else x

    with sut(f"constructing {spec['cls']}"):
        layer = make(spec)
    ok, y = attempt(layer, given(x))
    regular = spec["family"] != "convT" or spec["strides"] == [1, 1] or (
        spec["strides"] == spec["kernel_size"] and spec["padding"].startswith("valid")
    )
    if not ok and dtype not in ("float32", "float64") and as_tensor:
        # Keras does not convert tensors of integers: what it refuses may be refused
        require(not (accepts(spec) and regular) or not attempt(plain_layer({**spec, "padding": "valid"}), given(x[..., 0, :] if spec["valued"] else x))[0],
                f"refused a signal of {dtype}, unlike Keras: {type(y).__name__}: {str(y)[:300]}")
        return {"nontrivial": False, "labels": ["refused"]}
    if not ok:
        # refusing is decided by other properties, unless it cannot be right
        require(not accepts(spec) or not regular, f"refused: {type(y).__name__}: {str(y)[:400]}")
        require(not (spec["family"] != "global" and spec["allow"] and not spec["padding"].endswith("equiv")), f"refused: {type(y).__name__}: {str(y)[:400]}")
        return {"nontrivial": False, "labels": ["refused"]}
    out_dtype = str(y.dtype).split(".")[-1]
    y = numpy(y).astype("float32")
    plain_x = x[..., 0, :] if spec["valued"] else x  # without the group axis
    equiv = spec["family"] != "global" and spec["padding"].endswith("equiv")
    if equiv and spec["family"] == "convT":
        # the definition, as Keras has no such padding
        if not regular:
            return {"nontrivial": False, "labels": ["unspecified"]}
        same(from_format(spec, y), expected(spec, x.astype("float32"), weights_of(layer)), f"{spec['cls']} on P1, against its definition")
        return {"nontrivial": float(np.ptp(y)) > 0, "labels": ["plain", spec["cls"]]}
    if equiv:
        ks, ds = spec.get("kernel_size") or spec["pool_size"], spec.get("dilation_rate") or [1, 1]
        pads = ref.layer_padding(spec["size"], ks, strides_of(spec), ds, spec["padding"])
        extra_pads = ref.extra_padding(spec["size"], ks, strides_of(spec), ds, spec["padding"])
        if any(p != (0, 0) for p in extra_pads):
            plain_x = ref.pad(plain_x, pads)
            plain = plain_layer({**spec, "padding": "valid"})
        else:
            plain = plain_layer(spec)
    else:
        plain = plain_layer(spec)
    ok, want_t = attempt(plain, given(plain_x))
    if not ok and dtype != "float32":
        return {"nontrivial": False, "labels": ["refused"]}
    require(ok, f"Keras refuses what {spec['cls']} accepts: {want_t}")
    want_dtype = str(want_t.dtype).split(".")[-1]
    require(out_dtype == want_dtype, f"output of dtype {out_dtype} for a signal of {dtype}, {want_dtype} of Keras")
    want = numpy(want_t)
    if spec["family"] != "global" or spec["keepdims"]:
        want = np.expand_dims(want, 4 if spec["data_format"] == "channels_first" else 3)
    for a, b in zip(layer.weights, plain.weights):
        exactly(numpy(a), numpy(b), "weights of the P1 layer, against Keras")
    same(y, want, f"{spec['cls']} on P1, against Keras")
    return {"nontrivial": float(np.ptp(y)) > 0, "labels": ["plain", spec["cls"]] + (["keras groups"] if spec["keras_groups"] > 1 else []) + ([dtype] if dtype != "float32" else [])}


class Policy:
    def __init__(self, name):
        self.name = name
        self.compute_dtype = name.removeprefix("mixed_")
        self.variable_dtype = "float32" if name.startswith("mixed_") else name


def make_initializer(kind, seed):
    if kind == "ones":
        return keras.initializers.Ones()
    if kind == "constant":
        return keras.initializers.Constant(0.25)
    if kind == "seeded normal":
        return keras.initializers.RandomNormal(seed=seed + 1)
    return keras.initializers.GlorotUniform(seed=seed + 1)


def run_options(case):
    spec, o = case["layer"], case["options"]
    conv = spec["family"] in ("conv", "convT")
    x = signal(spec)
    kw = {k: v for k, v in o.items() if k in ("dtype", "name", "trainable")}
    for key in ("kernel_regularizer", "bias_regularizer", "activity_regularizer"):
        if key in o:
            kw[key] = getattr(keras.regularizers, o[key].upper())(0.01)
    for key in ("kernel_constraint", "bias_constraint"):
        if key in o:
            kw[key] = o[key]
    if "activation" in o:
        kw["activation"] = ACTIVATION_STYLES[o["activation"]]
    if "initializer" in o:
        kw["kernel_initializer"] = make_initializer(o["initializer"], spec["data"]["seed"])
        kw["bias_initializer"] = make_initializer("constant", 0)
    by_setting = case.get("dtype_by") == "setting" and "dtype" in kw
    before = keras.mixed_precision.dtype_policy()
    try:
        if by_setting:
            keras.mixed_precision.set_dtype_policy(kw.pop("dtype"))
        with sut(f"constructing {spec['cls']} with {sorted(kw)}"):
            layer = make(spec, **kw)
    finally:
        keras.mixed_precision.set_dtype_policy(before)
    with sut(f"calling {spec['cls']} with {sorted(kw)}"):
        y_t = layer(to_format(spec, x))
    policy = Policy(o.get("dtype", "float32"))
    out_dtype = str(y_t.dtype).split(".")[-1]
    require(out_dtype == policy.compute_dtype, f"output of dtype {out_dtype} under the policy {policy.name}")
    require(layer.compute_dtype == policy.compute_dtype and layer.variable_dtype == policy.variable_dtype, f"dtypes {layer.compute_dtype}, {layer.variable_dtype} under the policy {policy.name}")
    if "name" in o:
        require(layer.name == o["name"], f"the name is {layer.name}, not {o['name']}")
    require(layer.trainable == o.get("trainable", True), f"trainable is {layer.trainable}")
    y = from_format(spec, ops.cast(y_t, "float32"))
    if not conv:
        low = np.asarray(ops.convert_to_numpy(ops.cast(ops.cast(tensor(x), policy.compute_dtype), "float32")))
        want = expected(spec, low, [])
        same(y, want, f"{spec['cls']} with {o}", 1e-4 if policy.compute_dtype == "float32" else 3e-2)
        return {"nontrivial": float(np.ptp(y)) > 0, "labels": ["options", spec["cls"]] + sorted(o)}
    require(len(layer.weights) == 1 + spec["bias"], f"{len(layer.weights)} weights with use_bias={spec['bias']}")
    for w in layer.weights:
        require(str(w.dtype) == policy.variable_dtype, f"weight of dtype {w.dtype} under the policy {policy.name}")
    n_trainable = len(layer.weights) if o.get("trainable", True) else 0
    require(len(layer.trainable_weights) == n_trainable, f"{len(layer.trainable_weights)} trainable weights")
    if "name" in o:
        require(all(w.path.startswith(o["name"] + "/") for w in layer.weights), f"weights called {[w.path for w in layer.weights]}")
    if "initializer" in o:
        shape = layer.kernel.shape
        want = numpy(ops.cast(make_initializer(o["initializer"], spec["data"]["seed"])(tuple(shape), dtype=policy.variable_dtype), "float32"))
        exactly(numpy(ops.cast(layer.kernel, "float32")), want, "initial kernel, against the initialiser")
        if spec["bias"]:
            exactly(numpy(ops.cast(layer.bias, "float32")), np.full((spec["filters"],), 0.25, "float32"), "initial bias")
    weights = [numpy(ops.cast(w, "float32")) for w in layer.weights]
    s = dict(spec)
    if "activation" in o:
        s["activation"] = "tanh" if o["activation"] == "tanh" else "relu"
    low = numpy(ops.cast(ops.cast(tensor(x), policy.compute_dtype), "float32"))
    low_weights = [numpy(ops.cast(ops.cast(w, policy.compute_dtype), "float32")) for w in layer.weights]
    want = expected(s, low, low_weights)
    tol = 1e-4
    if policy.compute_dtype != "float32":
        # rounding errors are relative to the sum of the absolute terms (all activations here have slopes of at most 1)
        terms = expected({**s, "activation": None}, np.abs(low), [np.abs(w) for w in low_weights])
        eps = 2.0 ** (-11 if policy.compute_dtype == "float16" else -8)
        tol = max(3e-2, 8 * eps * (1 + float(np.max(terms))) / (1 + float(np.max(np.abs(want)))))
    same(y, want, f"{spec['cls']} with {o}", tol)
    # losses
    terms = []
    for key, values in (("kernel_regularizer", weights[:1]), ("bias_regularizer", weights[1:])):
        if key in o and o.get("trainable", True):  # Keras regularises trainable weights only
            for v in values:
                terms.append(0.01 * float(np.abs(v).sum() if o[key] == "l1" else (v.astype("float64") ** 2).sum()))
    if "activity_regularizer" in o:
        v = y.astype("float64")
        terms.append(0.01 * float(np.abs(v).sum() if o["activity_regularizer"] == "l1" else (v ** 2).sum()))
    with sut("reading the losses"):
        total = float(sum(float(ops.cast(l, "float32")) for l in layer.losses))
        count = len(layer.losses)
    require(count == len(terms), f"{count} losses for {o}, expected {len(terms)}")
    tol = 1e-4 if policy.compute_dtype == "float32" else 5e-2
    if np.isfinite(total) or policy.compute_dtype != "float16":
        require(abs(total - sum(terms)) <= tol * (1 + abs(sum(terms))), f"losses sum to {total}, expected {sum(terms)} for {o}")
    # constraints after an optimiser step
    if ("kernel_constraint" in o or "bias_constraint" in o) and o.get("trainable", True) and policy.variable_dtype == "float32":
        grads = [array(w.shape, {"kind": "int", "seed": spec["data"]["seed"]}, f"g{i}", -5, 5) for i, w in enumerate(layer.weights)]
        optimizer = keras.optimizers.SGD(0.5)
        with sut("an optimiser step"):
            optimizer.build(layer.trainable_variables)
            optimizer.apply([tensor(g) for g in grads], layer.trainable_variables)
        for i, (key, w, old, g) in enumerate(zip(("kernel_constraint", "bias_constraint"), layer.weights, weights, grads)):
            moved = old - 0.5 * g
            if key in o:
                moved = numpy(keras.constraints.get(o[key])(tensor(moved)))
            same(numpy(w), moved, f"{key} after an optimiser step")
    return {"nontrivial": float(np.ptp(y)) > 0, "labels": ["options", spec["cls"]] + sorted(o) + [policy.name] + (["dtype by setting"] if by_setting else [])}


def run_double(case):
    spec = case["layer"]
    noise = rng_for(spec["data"]["seed"], "noise")
    x = signal(spec).astype("float64")
    x += 1e-9 * noise.standard_normal(x.shape)
    with jax.experimental.enable_x64():
        with sut(f"{spec['cls']} in double precision"):
            layer = make(spec, dtype="float64")
            given = to_format(spec, x)
            layer(given)
            for w in layer.weights:
                require(str(w.dtype) == "float64", f"weight of dtype {w.dtype}")
                w.assign(numpy(w) + 1e-9 * noise.standard_normal(w.shape))
            weights = weights_of(layer)
            y_t = compile_(lambda v: layer(v))(given) if case["jit"] else layer(given)
            require(str(y_t.dtype).split(".")[-1] == "float64", f"output of dtype {y_t.dtype} in double precision")
            y = from_format(spec, y_t)
    same(y, expected(spec, x, weights), f"{spec['cls']} in double precision", 1e-11)
    return {"nontrivial": float(np.ptp(y)) > 0, "labels": ["double", spec["cls"]]}


def run_ways(case):
    spec = case["layer"]
    x = to_format(spec, signal(spec))
    if spec["family"] == "conv":
        require(hasattr(gl, f"{spec['group']}Conv{spec['dim']}D"), f"no ready-made constructor for {spec['group']}")
    results, configs = [], []
    for by in ("name", "object", "partial"):
        with sut(f"{spec['cls']} with its group by {by}"):
            layer = make({**spec, "by": by})
            results.append(numpy(layer(x)))
            config = layer.get_config()
        for key in ("name", "kernel_initializer", "bias_initializer"):
            config.pop(key, None)
        configs.append(str(sorted(config.items(), key=lambda i: i[0])))
    exactly(results[1], results[0], "the layer with its group as an object, against by name")
    exactly(results[2], results[0], "the ready-made constructor, against the group by name")
    require(len(set(configs)) == 1, f"configurations {configs}")
    same(from_format(spec, results[0]), expected(spec, signal(spec), weights_of(layer)), f"{spec['cls']} output")
    partial = (spec["cls"], spec["group"]) in PARTIALS
    return {"nontrivial": True, "labels": ["ways"] + (["ready-made"] if partial else [])}


def run(case):
    return {"plain": run_plain, "options": run_options, "ways": run_ways, "double": run_double}[case["kind"]](case)
