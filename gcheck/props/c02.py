from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut

RULE = (
    "Per pair of a group and a documented group contained in it: random signals; acting with the subgroup by name from "
    "the group must give, in order, what the group of that name gives on its own, on grid signals and on signals on "
    "the subgroup extended by zero; the listed elements and coset representatives are compared with the "
    "transformations they stand for, and all products h.c must reach every element once. Non-trivial: a subgroup with "
    "more than one element, or more than one coset, and a signal all elements transform differently."
)
ASSUMPTIONS = ["the documented groups are those of the README; containment is taken from the transformations themselves"]
EXAMPLES = {"quick": 20, "thorough": 400}


def strata(tier):
    return [{"group": g, "sub": h, "weight": 0.7 if ref.order(g) > 16 else 1} for g, h in ref.PAIRS]


@st.composite
def strategy(draw, stratum):
    g = stratum["group"]
    n = ref.dims(g)
    return {
        "group": g,
        "sub": stratum["sub"],
        "size": draw(per_axis(st.integers(1, 5), ref.mixed_axes(g), n, True)),
        "extra": draw(st.sampled_from([[], [2], [1, 3]])),
        "axis": draw(st.sampled_from([0, n])),
        "data": draw(data(("distinct", "distinct", "int", "float"))),
    }


def run(spec):
    name, sub = spec["group"], spec["sub"]
    n = ref.dims(name)
    g, h = group(name), group(sub)
    g_elts, h_elts = elements(name), elements(sub)
    require(g.name == name and h.name == sub, f"groups {name}, {sub} are called {g.name}, {h.name}")
    require(sub in g.subgroup and sub in g.cosets, f"{name} does not know its subgroup {sub}")
    foreign = [k for k in g.subgroup if k in ref.NAMES and k not in ref.contained(name)]
    require(not foreign, f"{name} claims to contain {foreign}")
    indices = [int(i) for i in g.subgroup[sub]]
    require(all(0 <= i < len(g_elts) for i in indices), f"{name}.subgroup[{sub}] = {indices}")
    require(
        [g_elts[i] for i in indices] == list(h_elts),
        f"the elements {indices} {name} selects for {sub} are not those {sub} has, in order",
    )
    reps = coset_elements(name, sub)
    require(len(reps) * len(h_elts) == len(g_elts), f"{len(reps)} cosets of {sub} in {name}")
    require(ref.identity(n) in reps, f"the coset representatives of {sub} in {name} lack the identity")
    products = [ref.compose(a, c) for a in h_elts for c in reps]
    require(set(products) == set(g_elts), f"the products of {sub} and its cosets miss elements of {name}")
    # by the tables themselves
    with sut("reading the tables"):
        table = numpy(g.composition)
        flat = sorted(int(table[i, int(c)]) for i in indices for c in g.cosets[sub])
    require(flat == list(range(len(g_elts))), f"the products by the table of {name} are {flat}")
    # on signals
    x = array(spec["size"] + spec["extra"], spec["data"])
    axes = tuple(range(n))
    new = spec["axis"]
    with sut(f"acting with {sub}"):
        inside = numpy(g.action(tensor(x), spatial_axes=axes, new_group_axis=new, domain_group=None, acting_group=sub))
        alone = numpy(h.action(tensor(x), spatial_axes=axes, new_group_axis=new, domain_group=None))
    exactly(inside, alone, f"{sub} acting from within {name}, against {sub} alone")
    # on signals on the subgroup
    y = array(spec["size"] + [len(h_elts)] + spec["extra"], spec["data"], "y")
    with sut(f"acting with {sub} on a signal on {sub}"):
        inside = numpy(
            g.action(tensor(y), spatial_axes=axes, group_axis=n, new_group_axis=new, domain_group=sub, acting_group=sub)
        )
        alone = numpy(h.action(tensor(y), spatial_axes=axes, group_axis=n, new_group_axis=new))
    exactly(inside, alone, f"{sub} acting from within {name} on a signal on {sub}, against {sub} alone")
    distinct = len({ref.act(e, x, axes).tobytes() for e in g_elts}) == len(g_elts)
    return {
        "nontrivial": distinct and len(g_elts) > 1,
        "labels": [f"{sub} < {name}"] + (["faithful"] if distinct else []),
    }
