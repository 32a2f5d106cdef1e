import numpy as np
from hypothesis import strategies as st
from keras import ops

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut
from gcheck.layers import from_format, layer_spec, make_acceptable, to_format
from groco.groups import Group
from groco.utils import check_equivariance

RULE = (
    "A user's own Group: any of the 10 groups of symmetries of the square or 98 of the cube, with its elements in any "
    "order (the identity first or not), any order and choice of named subgroups and coset representatives, the inverses "
    "given or left to be computed, tables as lists, arrays or tensors, and an action written by the user. tables: the "
    "computed inverses; acting on signals on the grid and on subgroups, with subgroups; extension by zero; groups derived "
    "from it. layer: a convolution, transposed convolution or pooling with random options given that group and one of "
    "its subgroups, entry by entry; check_equivariance on it. Non-trivial: more than one element and an output that is not constant."
)
ASSUMPTIONS = [
    "the tables given are right: composition[r][c] is the index of element r after element c",
    "no two names for the same subgroup",
    "the group itself is among its subgroups, with its elements in order, as in the ready-made groups",
    "grids whose shape the group leaves unchanged",
]
EXAMPLES = {"quick": 12, "thorough": 300}


def strata(tier):
    out = []
    for i, s in enumerate(ref.subgroups(2)):
        out.append({"dim": 2, "which": [i], "kind": "tables", "weight": 0.6})
        out.append({"dim": 2, "which": [i], "kind": "layer", "weight": 1})
    orders = [len(s) for s in ref.subgroups(3)]
    for o in sorted(set(orders)):
        which = [i for i, k in enumerate(orders) if k == o]
        weight = 0.5 if o >= 24 else 1 + (len(which) > 8)
        out.append({"dim": 3, "which": which, "kind": "tables", "weight": weight / 2})
        out.append({"dim": 3, "which": which, "kind": "layer", "weight": weight})
    return out


def inside(which, n):
    """Indices of the groups contained in a group."""
    own = set(ref.subgroups(n)[which])
    return [i for i, s in enumerate(ref.subgroups(n)) if set(s) <= own and len(s) < len(own)]


@st.composite
def strategy(draw, stratum):
    n = stratum["dim"]
    which = draw(st.sampled_from(stratum["which"]))
    smaller = inside(which, n)
    subs = []
    if smaller:
        chosen = draw(st.lists(st.sampled_from(smaller), min_size=1, max_size=3, unique=True))
        subs = [{"which": i, "order": draw(st.integers(0, 999))} for i in chosen]
    spec = {
        "dim": n, "which": which, "order": draw(st.integers(0, 999)), "identity_first": draw(st.booleans()), "subs": subs,
        "inverses": draw(st.booleans()), "tables": draw(st.sampled_from(["list", "array", "tensor"])),
        "indices": draw(st.sampled_from(["list", "tuple", "array"])),
        "stacked": draw(st.sampled_from(["stack", "concatenate"])),
    }
    names = st.sampled_from(["X"] + [f"X{i}" for i in range(len(subs))])
    order_ = len(ref.subgroups(n)[which])
    sets = ref.mixed_axes_of(ref.subgroups(n)[which])
    if stratum["kind"] == "tables":
        return {
            "kind": "tables", "group": spec, "acting": draw(names), "domain": draw(names), "derive": draw(names), "within": draw(names),
            "size": draw(per_axis(st.integers(1, 4), sets, n, True)), "new": draw(st.integers(0, n + 2)),
            "group_axis": draw(st.sampled_from([0, n, n + 1])), "data": draw(data(("distinct", "int", "float"))),
        }
    # the group that determines which axes must be alike; a named one with the same axes mixed keeps the generator simple
    like = ("P1" if all(len(s) == 1 for s in sets) else "P4") if n == 2 else "Oh" if max(map(len, sets)) == 3 else "D4"
    family = draw(st.sampled_from(["conv", "conv", "convT", "pool"]))
    layer = draw(
        layer_spec(
            family, like, like, valued=family == "pool" or draw(st.booleans()), kind=draw(st.sampled_from(["max", "average"])),
            allow=False, big=False, aim=10,
        )
    )
    make_acceptable(layer)
    if n == 3:
        layer["batch"] = 1
        if max(map(len, sets)) == 2:
            # the axes mixed may be others than those of D4
            for key in ("size", "kernel_size", "pool_size", "strides", "dilation_rate"):
                if layer.get(key):
                    layer[key] = [layer[key][0]] * 3
            make_acceptable(layer)
        if order_ >= 12 and family != "pool":
            layer["cin"], layer["filters"], layer["keras_groups"] = 1, 1, 1
    layer["group"], layer["sub"] = "X", draw(names)
    return {"kind": "layer", "group": spec, "layer": layer}


class Own:
    """The group a user makes, and its elements."""

    def __init__(self, spec):
        n = self.dim = spec["dim"]
        everything = ref.subgroups(n)
        self.elements = {"X": self.shuffled(everything[spec["which"]], spec["order"])}
        if spec["identity_first"]:
            self.elements["X"].sort(key=lambda e: e != ref.identity(n))
        for i, s in enumerate(spec["subs"]):
            self.elements[f"X{i}"] = self.shuffled(everything[s["which"]], s["order"])
        own = self.elements["X"]
        self.index = {e: i for i, e in enumerate(own)}
        self.cosets = {name: self.representatives(name, spec["order"]) for name in self.elements}
        kw = {}
        if spec["inverses"]:
            kw["inverses"] = self.table(spec, [self.index[ref.inverse(e)] for e in own])
        with sut("defining a group"):
            self.group = Group(
                name="X",
                order=len(own),
                composition=self.table(spec, [[self.index[ref.compose(a, b)] for b in own] for a in own]),
                subgroup={k: self.container(spec, v) for k, v in self.elements.items()},
                cosets={k: self.container(spec, v) for k, v in self.cosets.items()},
                action=self.action(spec),
                **kw,
            )

    @staticmethod
    def shuffled(elements, seed):
        elements = sorted(elements)
        return [elements[i] for i in rng_for(seed).permutation(len(elements))]

    def representatives(self, name, seed):
        """One element of every coset of the subgroup."""
        left, out = self.shuffled(self.elements["X"], seed + 1), []
        covered = set()
        for c in left:
            if c not in covered:
                out.append(c)
                covered |= {ref.compose(h, c) for h in self.elements[name]}
        return out

    @staticmethod
    def table(spec, rows):
        if spec["tables"] == "tensor":
            return ops.convert_to_tensor(rows)
        return np.array(rows) if spec["tables"] == "array" else rows

    def container(self, spec, elements):
        indices = [self.index[e] for e in elements]
        return {"list": list, "tuple": tuple, "array": np.array}[spec["indices"]](indices)

    def action(self, spec):
        def transform(e, signal, axes):
            order = list(range(len(signal.shape)))
            for i, ax in enumerate(axes):
                order[ax] = axes[e[0][i]]
            out = ops.transpose(signal, order)
            flips = [ax for i, ax in enumerate(axes) if e[1][i] == -1]
            return ops.flip(out, axis=flips) if flips else out

        def action(signal, spatial_axes, new_group_axis):
            copies = [transform(e, signal, spatial_axes) for e in self.elements["X"]]
            if spec["stacked"] == "stack":
                return ops.stack(copies, axis=new_group_axis)
            return ops.concatenate([ops.expand_dims(c, new_group_axis) for c in copies], axis=new_group_axis)

        return action


def run_tables(case):
    spec = case["group"]
    own = Own(spec)
    n, g, elts = own.dim, own.group, own.elements["X"]
    require([int(i) for i in g.inverses] == [own.index[ref.inverse(e)] for e in elts], f"inverses {[int(i) for i in g.inverses]}")
    acting, domain = case["acting"], case["domain"]
    # on the grid
    axes = tuple(range(1, n + 1))
    x = array([2] + case["size"] + [1], case["data"])
    new = case["new"]
    with sut("acting on a signal on the grid"):
        y = numpy(g.action(tensor(x), spatial_axes=axes, new_group_axis=new, domain_group=None, acting_group=acting))
    exactly(y, np.stack([ref.act(e, x, axes) for e in own.elements[acting]], new), f"{acting} acting on a signal on the grid")
    # on a subgroup
    group_axis = case["group_axis"]
    shape = case["size"] + [2]
    shape.insert(group_axis, len(own.elements[domain]))
    axes = tuple(i + (i >= group_axis) for i in range(n))
    x = array(shape, case["data"], "on the group")
    kw = {"spatial_axes": axes, "group_axis": group_axis, "new_group_axis": new, "acting_group": acting, "domain_group": domain}
    with sut(f"acting with {acting} on a signal on {domain}"):
        y = numpy(g.action(tensor(x), **kw))
        up = numpy(g.upsample(tensor(x), group_axis=group_axis, domain_group=domain))
    want = ref.act_on_group_signal(x, axes, group_axis, own.elements[acting], own.elements[domain])
    exactly(y, np.stack(want, new), f"{acting} acting on a signal on {domain}")
    zero = np.zeros_like(np.take(x, 0, group_axis))
    place = {e: i for i, e in enumerate(own.elements[domain])}
    want = np.stack([np.take(x, place[e], group_axis) if e in place else zero for e in elts], group_axis)
    exactly(up, want, f"signal on {domain} extended by zero")
    # derived groups
    name = case["derive"]
    within = own.elements[name]
    with sut(f"deriving {name}"):
        d = Group(name=name, order=len(within), parent=g)
        table, inverses = np.asarray(numpy(d.composition)), [int(i) for i in d.inverses]
        subs = {k: [int(i) for i in v] for k, v in d.subgroup.items()}
        cosets = {k: [int(i) for i in v] for k, v in d.cosets.items()}
    index = {e: i for i, e in enumerate(within)}
    exactly(table, np.array([[index[ref.compose(a, b)] for b in within] for a in within]), f"composition of the derived {name}")
    require(inverses == [index[ref.inverse(e)] for e in within], f"inverses of the derived {name}: {inverses}")
    want = {k: [index[e] for e in v] for k, v in own.elements.items() if set(v) <= set(within)}
    require(subs == want, f"subgroups of the derived {name}: {subs} instead of {want}")
    require(set(cosets) == set(subs), f"cosets of the derived {name}: {sorted(cosets)}")
    for k, indices in subs.items():
        products = sorted(int(table[i, c]) for i in indices for c in cosets[k])
        require(products == list(range(len(within))), f"derived {name}: subgroup {k} times its cosets {cosets[k]} gives {products}")
    if case["within"] in subs:
        keep = case["within"]
        x = array(case["size"] + [len(subs[keep])], case["data"], "derived")
        kw = {"spatial_axes": tuple(range(n)), "group_axis": n, "new_group_axis": 0, "acting_group": name, "domain_group": keep}
        with sut(f"acting with the derived {name}"):
            y = numpy(d.action(tensor(x), **kw))
        want = ref.act_on_group_signal(x, kw["spatial_axes"], n, within, own.elements[keep])
        exactly(y, np.stack(want), f"the derived {name} acting on a signal on {keep}")
    return {"nontrivial": len(elts) > 1 and float(np.ptp(x)) > 0, "labels": labels(case, own)}


def labels(case, own):
    return [
        f"{own.dim}D group of order {len(own.elements['X'])}", case["kind"], case["group"]["tables"], case["group"]["indices"],
        "identity first" if own.elements["X"][0] == ref.identity(own.dim) else "identity elsewhere",
    ]


def run_layer(case):
    spec, sub = case["layer"], case["layer"]["sub"]
    own = Own(case["group"])
    n, family = own.dim, spec["family"]
    whole, part = own.elements["X"], own.elements[sub]
    domain, target = (part, whole) if family == "convT" else (whole, part)
    domain = domain if spec["valued"] else None
    from gcheck.layers import kwargs, strides_of

    kw = kwargs(spec)
    kw["subgroup"] = sub
    if family != "pool":
        kw["kernel_initializer"], kw["bias_initializer"] = initializer(spec["data"], "kernel"), initializer(spec["data"], "bias")
    with sut(f"constructing {spec['cls']} with the user's group"):
        layer = getattr(gl, spec["cls"])(group=own.group, **rename(kw))
    shape = [spec["batch"]] + spec["size"] + ([len(domain)] if domain else []) + [spec["cin"]]
    x = array(shape, spec["data"])
    with sut(f"calling {spec['cls']} with the user's group"):
        y = from_format(spec, layer(to_format(spec, x)))
        weights = [numpy(w).astype("float64") for w in layer.weights]
        predicted = layer.compute_output_shape(tuple(to_format(spec, x).shape))
    x64 = x.astype("float64")
    if family == "pool":
        want = ref.group_pool(
            x64, whole, part, own.cosets[sub], spec["pool_size"], strides_of(spec), spec["padding"], False, spec["kind"]
        )
    else:
        bias = weights[1] if spec["bias"] else None
        if family == "conv":
            want = ref.group_conv(
                x64, weights[0], bias, target, domain, spec["strides"], spec["dilation_rate"], spec["padding"], False,
                spec["activation"], spec.get("keras_groups", 1),
            )
        else:
            want = ref.group_conv_transpose(
                x64, weights[0], bias, target, domain, spec["strides"], spec["padding"], spec["activation"], spec["dilation_rate"]
            )
    same(y, want, f"{spec['cls']} with the user's group")
    require(tuple(predicted) == tuple(to_format(spec, y).shape), f"predicted shape {tuple(predicted)} for {y.shape}")
    if spec["data_format"] == "channels_last":
        with sut("check_equivariance with the user's group"):
            off = float(numpy(check_equivariance(
                layer, tensor(x), spatial_axes=tuple(range(1, n + 1)), group_axis=n + 1, acting_group=sub,
                domain_group=(sub if family == "convT" else "X") if domain else None,
                target_group="X" if family == "convT" else sub,
            )))
        require(off <= 1e-4 * (1 + float(np.max(np.abs(want)))), f"{spec['cls']} with the user's group deviates by {off}")
    return {"nontrivial": len(whole) > 1 and float(np.ptp(y)) > 0, "labels": labels(case, own) + [spec["cls"]]}


def run(case):
    return run_tables(case) if case["kind"] == "tables" else run_layer(case)
