import keras
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from gcheck.layers import *  # noqa: F403

RULE = (
    "name: random wrong group, subgroup and padding names (other spellings, names of groups that are not contained, of "
    "other dimensions, random text, no text) on every layer class: no output may be returned. signal: a layer of every "
    "class, new or already used (eagerly or symbolically) on a right signal, given a signal (tensor or symbolic) whose "
    "group axis has another size - the order of another group, one more, twice with half the channels (same product), "
    "one, or none at all - must refuse it and then still treat the right signal as the definition says. spelling: "
    "random accepted configurations with sizes as ints, tuples or lists, padding and data format in other letter cases "
    "and options left out: must be accepted and give what the plain spelling gives. Non-trivial: every case but "
    "the refused spellings."
)
ASSUMPTIONS = ["global pooling does not know its group, so takes any size of the group axis"]
EXAMPLES = {"quick": 8, "thorough": 250}


def strata(tier):
    out = []
    for g in ref.NAMES:
        heavy = ref.order(g) >= 24
        for family in ("conv", "convT", "pool"):
            out.append({"kind": "name", "family": family, "group": g, "weight": 1})
            out.append({"kind": "signal", "family": family, "group": g, "weight": 0.7 if heavy else 1.5})
            out.append({"kind": "spelling", "family": family, "group": g, "weight": 0.5 if heavy else 1})
    for kind in ("signal", "spelling", "name"):
        out.append({"kind": kind, "family": "pool", "group": "P4", "dim": 1, "weight": 1})
    out.append({"kind": "spelling", "family": "global", "group": "P4", "weight": 1})
    return out


BAD_GROUPS = ["p4m", "P4m", "P3", "P6M", "C4", "D2", "oh", "OH", "Oh ", "P4MM", "", "PM", "pmh", "P1 ", "D4H", "None"]
BAD_PADDING = ["reflect", "full", "", "equiv", "same-equiv", "valid_", "causal", "sameequiv", "SAME_EQUIVARIANT", " same", "valid_equiv "]


@st.composite
def strategy(draw, stratum):
    g, family, kind = stratum["group"], stratum["family"], stratum["kind"]
    sub = draw(st.sampled_from(ref.contained(g)))
    valued = True if family in ("pool", "global") or (kind == "signal" and draw(st.integers(0, 3))) else draw(st.booleans())
    spec = draw(
        layer_spec(
            family, g, sub, valued=valued, kind=draw(st.sampled_from(["max", "average"])), dim=stratum.get("dim"), tie="sub",
            aim=10, kinds=("int",), big=False,
        )
    )
    make_acceptable(spec)
    spec["batch"] = 1
    if family in ("conv", "convT") and spec.get("keras_groups", 1) == 1:
        spec["cin"], spec["filters"] = draw(st.sampled_from([(2, 1), (2, 3), (1, 2), (4, 1)])) if ref.order(g) < 16 else (2, 1)
    case = {"kind": kind, "layer": spec}
    if kind == "name":
        what = draw(st.sampled_from(["group", "subgroup", "padding"]))
        if what == "group":
            wrong = draw(st.one_of(st.sampled_from(BAD_GROUPS), st.text(max_size=5)))
        elif what == "subgroup":
            outside = [h for h in ref.NAMES if h not in ref.contained(g)]
            wrong = draw(st.one_of(st.sampled_from((outside or BAD_GROUPS) * 3), st.sampled_from([b for b in BAD_GROUPS if b]), st.text(min_size=1, max_size=5)))
        else:
            wrong = draw(st.one_of(st.sampled_from(BAD_PADDING), st.text(max_size=8), st.sampled_from([3, None, True])))
        case.update(what=what, wrong=wrong)
    elif kind == "signal":
        case["wrong"] = draw(st.sampled_from(["other order", "more", "fewer", "same product", "one", "double", "no axis"]))
        case["symbolic"] = draw(st.integers(0, 3)) == 0
        case["before"] = draw(st.sampled_from(["none", "call", "call", "symbolic", "other batch"]))
        case["pick"] = draw(st.integers(0, 20))
    else:
        case["sizes"] = draw(st.sampled_from(["int", "tuple", "list"]))
        case["padding_case"] = draw(st.sampled_from(["upper", "title", "lower", "mixed"]))
        case["format_case"] = draw(st.sampled_from(["lower", "upper", "title"]))
        case["subgroup_style"] = draw(st.sampled_from(["name", "empty", "None", "left out"]))
    return case


def run_name(case):
    spec, what, wrong = case["layer"], case["what"], case["wrong"]
    valid = {
        "group": ref.NAMES,
        "subgroup": ref.contained(spec["group"]) + [""],
        "padding": ["same", "valid", "same_equiv", "valid_equiv"],
    }[what]
    if wrong in valid or (what == "padding" and isinstance(wrong, str) and wrong.lower() in valid):
        return {"nontrivial": False, "labels": ["happens to be right"]}
    x = to_format(spec, signal(spec))

    def use():
        kw = kwargs(spec)
        if what != "group":
            kw[what] = wrong
            layer = construct(spec["cls"], spec["group"], spec["by"], **kw)
        else:
            layer = construct(spec["cls"], wrong, "name", **kw)
        return numpy(layer(x)).shape

    ok, result = attempt(use)
    require(not ok, f"{spec['cls']} accepted {what}={wrong!r} and returned an output of shape {result}")
    return {"nontrivial": True, "labels": ["wrong " + what, spec["cls"]]}


def wrong_signal(case, x):
    """A channels_last signal with another size of the group axis, or None."""
    spec = case["layer"]
    domain = domain_name(spec)
    kind = case["wrong"]
    axis = spec["dim"] + 1
    if domain is None:
        # a layer used on the grid, given a signal on the group
        if case["before"] == "none":
            return None
        return np.repeat(np.expand_dims(x, axis), ref.order(spec["group"]), axis)
    order, channels = x.shape[axis], x.shape[-1]
    if kind == "no axis":
        if case["before"] == "none" and spec["family"] != "pool":
            return None  # a first signal on the grid is right
        return np.take(x, 0, axis=axis)
    if kind == "other order":
        others = sorted({ref.order(h) for h in ref.contained(spec["group"])} | {ref.order(h) for h in ref.NAMES if ref.dims(h) == ref.dims(spec["group"])})
        others = [o for o in others if o != order]
        size = others[case["pick"] % len(others)]
    else:
        size = {"more": order + 1, "fewer": order - 1, "one": 1, "double": order * 2, "same product": 0}[kind]
    if kind == "same product":
        for s in (order // 2, order * 2, order * channels):
            if s >= 1 and s != order and (order * channels) % s == 0:
                return x.reshape(x.shape[:axis] + (s, order * channels // s))
        return None
    if size == order or size < 1:
        return None
    return np.resize(x, x.shape[:axis] + (size, channels))


def run_signal(case):
    spec = case["layer"]
    x = signal(spec)
    bad = wrong_signal(case, x)
    if bad is None:
        return {"nontrivial": False, "labels": ["no such signal"]}
    with sut(f"constructing {spec['cls']}"):
        layer = make(spec)
    right = to_format(spec, x)
    with sut(f"using {spec['cls']}"):
        if case["before"] == "call":
            layer(right)
        elif case["before"] == "symbolic":
            layer(keras.Input(right.shape[1:]))
        elif case["before"] == "other batch":
            layer(tensor(np.concatenate([numpy(right)] * 2)))
    given = to_format(spec, bad)
    if case["symbolic"]:
        ok, y = attempt(layer, keras.KerasTensor((None,) + tuple(given.shape[1:])))
    else:
        ok, y = attempt(layer, given)
    shape = None if not ok else tuple(y.shape)
    require(
        not ok,
        f"{spec['cls']} working on signals of shape {tuple(right.shape)} accepted one of shape {tuple(given.shape)} and returned {shape}",
    )
    if case["pick"] % 3 == 0:  # and again: a refusal must not depend on what was refused before
        ok, y = attempt(layer, given)
        require(not ok, "a wrong signal was refused once and then accepted")
    with sut(f"calling {spec['cls']} on a right signal after a wrong one"):
        y = from_format(spec, layer(right))
    same(y, expected(spec, x, weights_of(layer)), f"{spec['cls']} after a refusal")
    return {"nontrivial": True, "labels": ["wrong signal", spec["cls"], case["wrong"], "before: " + case["before"]]}


def spell(case, value, n):
    values = list(value)
    if case["sizes"] == "int" and len(set(values)) == 1:
        return values[0]
    return list(values) if case["sizes"] == "list" else tuple(values)


def letters(text, style):
    if style == "mixed":
        return "".join(c.upper() if i % 2 else c for i, c in enumerate(text))
    return getattr(text, style)()


def run_spelling(case):
    spec = case["layer"]
    x = to_format(spec, signal(spec))
    with sut(f"constructing {spec['cls']} in the plain spelling"):
        plain = make({**spec, "implicit": False})
        y = numpy(plain(x))
    n = spec["dim"]
    kw = kwargs(spec)
    for key in ("kernel_size", "pool_size", "strides", "dilation_rate"):
        if key in kw and kw[key] is not None:
            kw[key] = spell(case, spec[key], n)
    if "padding" in kw:
        kw["padding"] = letters(kw["padding"], case["padding_case"])
    if "data_format" in kw:
        kw["data_format"] = letters(kw["data_format"], case["format_case"])
    if spec["family"] != "global" and spec["sub"] == spec["group"]:
        if case["subgroup_style"] == "empty":
            kw["subgroup"] = ""
        elif case["subgroup_style"] == "None":
            kw["subgroup"] = None
        elif case["subgroup_style"] == "left out":
            kw.pop("subgroup", None)
    maker = getattr(gl, spec["cls"])
    if spec["family"] in ("conv", "convT"):
        kw["kernel_initializer"] = initializer(spec["data"], "kernel")
        kw["bias_initializer"] = initializer(spec["data"], "bias")
    with sut(f"{spec['cls']} spelled {kw}"):
        if spec["family"] == "global":
            layer = maker(**kw)
        elif spec["by"] == "partial" and (spec["cls"], spec["group"]) in PARTIALS:
            layer = PARTIALS[(spec["cls"], spec["group"])](**kw)
        else:
            layer = maker(group=spec["group"] if spec["by"] == "name" else OBJECTS[spec["group"]], **kw)
        y2 = numpy(layer(x))
    exactly(y2, y, f"{spec['cls']} spelled {sorted(kw)}")
    return {"nontrivial": True, "labels": ["spelling", case["sizes"], case["padding_case"], case["format_case"]]}


def run(case):
    return {"name": run_name, "signal": run_signal, "spelling": run_spelling}[case["kind"]](case)
