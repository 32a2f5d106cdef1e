import itertools

import numpy as np
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut
from groco.groups import Group

RULE = (
    "Per pair of a group and a contained group (and chains of three): a Group is constructed from just the name, the "
    "order and the parent, possibly in two steps, and compared with the transformations it must consist of: action on "
    "random grid signals and group signals, composition, inverses, subgroups (all named ones contained), cosets, and "
    "a convolution, transposed convolution or pooling using it, against one using the ready-made group. Non-trivial: "
    "the derived group has more than one element and signals all elements transform differently."
)
ASSUMPTIONS = ["the parent lists the name among its subgroups", "grids whose shape the parent leaves unchanged"]
EXAMPLES = {"quick": 9, "thorough": 150}


def strata(tier):
    out = []
    for g, h in ref.PAIRS:
        between = [k for k in ref.contained(g) if h in ref.contained(k)]
        for k in sorted({k for k in between if k not in (g, h)} | {h}):
            out.append({"group": g, "via": k, "sub": h, "weight": 1 if k == h else 0.5})
    return out


@st.composite
def strategy(draw, stratum):
    g, h = stratum["group"], stratum["sub"]
    n = ref.dims(g)
    return {
        **{k: stratum[k] for k in ("group", "via", "sub")},
        "size": draw(per_axis(st.integers(1, 4), ref.mixed_axes(g), n, True)),
        "extra": draw(st.sampled_from([[], [2], [1, 3]])),
        "new": draw(st.integers(0, n)),
        "keep": draw(st.sampled_from(ref.contained(h))),
        "layer": draw(st.sampled_from(["conv", "convT", "pool", "none"])),
        "object": draw(st.booleans()),
        "data": draw(data(("distinct", "int", "float"))),
    }


def derived(parent, name):
    return Group(name=name, order=ref.order(name), parent=parent)


def run(spec):
    g, h, via, keep = spec["group"], spec["sub"], spec["via"], spec["keep"]
    n = ref.dims(g)
    ready = group(h)
    elts = elements(h)
    inside = [e for e in elements(g) if e in set(elts)]
    with sut(f"deriving {h} from {g}"):
        parent = group(g)
        if via != h:
            parent = derived(parent, via)
        d = derived(parent, h)
    require(d.name == h and d.order == len(elts), f"derived group {d.name} of order {d.order}")
    # the order of its elements is that of the indices the parent lists
    axes = tuple(range(n))
    x = array(spec["size"] + spec["extra"], spec["data"])
    with sut("acting with the derived group"):
        out = numpy(d.action(tensor(x), spatial_axes=axes, new_group_axis=spec["new"], domain_group=None))
        alone = numpy(ready.action(tensor(x), spatial_axes=axes, new_group_axis=spec["new"], domain_group=None))
    require(set(inside) == set(elts), f"{g} does not contain {h}")
    exactly(out, alone, f"{h} derived from {g}, acting on a grid signal")
    index = {e: i for i, e in enumerate(elts)}
    with sut("reading the tables of the derived group"):
        table = np.asarray(numpy(d.composition))
        inverses = [int(i) for i in d.inverses]
        subs = {k: [int(i) for i in v] for k, v in d.subgroup.items()}
        cosets = {k: [int(i) for i in v] for k, v in d.cosets.items()}
    want = [[index[ref.compose(a, b)] for b in elts] for a in elts]
    exactly(table, np.array(want), f"composition of {h} derived from {g}")
    require(inverses == [index[ref.inverse(a)] for a in elts], f"inverses of {h} derived from {g}: {inverses}")
    require(set(subs) == set(ref.contained(h)), f"{h} derived from {g} lists the subgroups {sorted(subs)}")
    require(set(cosets) == set(subs), f"{h} derived from {g} lists the cosets {sorted(cosets)}")
    for k, indices in subs.items():
        require([elts[i] for i in indices] == list(elements(k)), f"{h} derived from {g} selects {indices} for {k}")
        products = sorted(table[i, c] for i in indices for c in cosets[k])
        require(products == list(range(len(elts))), f"{h} derived from {g}: subgroup {k} times its cosets gives {products}")
        require(0 in cosets[k], f"{h} derived from {g}: cosets of {k} lack the identity")
    # on signals on a subgroup
    y = array(spec["size"] + [len(elements(keep))] + spec["extra"], spec["data"], "y")
    kw = {"spatial_axes": axes, "group_axis": n, "new_group_axis": spec["new"], "domain_group": keep, "acting_group": keep}
    with sut(f"acting with {keep} through the derived group"):
        out, alone = numpy(d.action(tensor(y), **kw)), numpy(ready.action(tensor(y), **kw))
    exactly(out, alone, f"{keep} acting from within {h} derived from {g}")
    labels = [spec["layer"], "two steps" if via != h else "one step"]
    if spec["layer"] != "none":
        labels.append("layer")
        use_layer(spec, d)
    faithful = len({ref.act(e, x, axes).tobytes() for e in elts}) == len(elts)
    return {"nontrivial": len(elts) > 1 and faithful, "labels": labels}


def use_layer(spec, d):
    """A layer given the derived group, against one given the ready-made group."""
    h, keep, n = spec["sub"], spec["keep"], ref.dims(spec["sub"])
    family = spec["layer"]
    size = [3] * n
    if family == "pool":
        cls, kw, domain = f"GroupMaxPooling{n}D", {"pool_size": 2, "strides": 1}, h
    else:
        kw = {
            "filters": 2, "kernel_size": 2, "kernel_initializer": initializer(spec["data"], "kernel"),
            "bias_initializer": initializer(spec["data"], "bias"),
        }
        cls = f"GroupConv{n}D" + ("Transpose" if family == "convT" else "")
        domain = keep if family == "convT" else h
    x = tensor(array([1] + size + [ref.order(domain), 1], spec["data"], "layer"))
    with sut(f"using {cls} with the derived group"):
        a = numpy(getattr(gl, cls)(group=d, subgroup=keep, **kw)(x))
        b = numpy(getattr(gl, cls)(group=h, subgroup=keep, **kw)(x))
    if family != "pool" or set(coset_choice(d, keep)) == set(coset_choice(group(h), keep)):
        same(a, b, f"{cls} with {h} derived from {spec['group']}, against the ready-made group")
    else:
        require(a.shape == b.shape, f"{cls} with the derived group gives shape {a.shape}, with the ready-made one {b.shape}")


def coset_choice(g, sub):
    return [int(i) for i in g.cosets[sub]]
