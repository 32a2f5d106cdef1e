from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut

RULE = (
    "Per group: random grid signal (size, extra axes, values) and a random word of elements. All elements act on the "
    "signal and then all elements act on the results: entry (r, c) must be what the table says composition[r][c] does, "
    "and what the documented rotation/reflection does; the word is applied letter by letter and compared with the "
    "product by the table and undone by the inverses. The group laws are checked on all pairs and triples of the "
    "table. Non-trivial: more than one element and all elements transform the signal differently."
)
ASSUMPTIONS = ["the documented group is the one of the README: rotations and reflections of the square or cube"]
EXAMPLES = {"quick": 30, "thorough": 600}


def strata(tier):
    return [{"group": g, "part": p, "weight": 0.5 if ref.order(g) > 16 else 1} for g in ref.NAMES for p in range(2)]


@st.composite
def strategy(draw, stratum):
    g = stratum["group"]
    n = ref.dims(g)
    size = draw(per_axis(st.integers(1, 5), ref.mixed_axes(g), n, True))
    order = ref.order(g)
    return {
        "group": g,
        "size": size,
        "extra": draw(st.sampled_from([[], [2], [1, 3]])),
        "word": draw(st.lists(st.integers(0, order - 1), min_size=2, max_size=6)),
        "data": draw(data(("distinct", "distinct", "int", "float"))),
        "by": draw(st.sampled_from(["name", "object"])),
    }


def run(spec):
    name = spec["group"]
    n, order = ref.dims(name), ref.order(name)
    elts = elements(name)
    g = group(name) if spec["by"] == "name" else OBJECTS[name]
    require(elts[0] == ref.identity(n), f"element 0 of {name} is not the identity")
    require(int(g.order) == order, f"{name} has order {g.order}, expected {order}")
    with sut("reading the tables"):
        table = np.asarray([[int(i) for i in row] for row in numpy(g.composition)])
        inverses = np.asarray([int(i) for i in g.inverses])
    require(table.shape == (order, order) and inverses.shape == (order,), f"tables of shapes {table.shape}, {inverses.shape}")
    require(table.min() >= 0 and table.max() < order and inverses.min() >= 0 and inverses.max() < order, "not closed")
    # the laws
    exactly(table[0], np.arange(order), "row of the identity")
    exactly(table[:, 0], np.arange(order), "column of the identity")
    exactly(table[np.arange(order), inverses], np.zeros(order, int), "products with the inverses")
    exactly(table[inverses, np.arange(order)], np.zeros(order, int), "products of the inverses")
    exactly(table[table], table[np.arange(order)[:, None, None], table[None]], "associativity")
    # and what they say about signals
    x = array(spec["size"] + spec["extra"], spec["data"])
    axes = tuple(range(n))
    with sut(f"acting with {name}"):
        once = numpy(g.action(tensor(x), spatial_axes=axes, new_group_axis=0, domain_group=None))
        twice = numpy(
            g.action(tensor(once), spatial_axes=tuple(a + 1 for a in axes), new_group_axis=0, domain_group=None)
        )
    exactly(once, np.stack([ref.act(e, x, axes) for e in elts]), f"action of {name}")
    exactly(twice, once[table], "acting twice, against the composition table")
    # a word, from right to left, against its product
    product, current = 0, x
    for letter in spec["word"]:
        with sut(f"acting with {name}"):
            current = numpy(g.action(tensor(current), spatial_axes=axes, new_group_axis=0, domain_group=None))[letter]
        product = table[letter, product]
    exactly(current, once[product], f"the word {spec['word']}, against the product {product}")
    with sut(f"acting with {name}"):
        back = numpy(g.action(tensor(current), spatial_axes=axes, new_group_axis=0, domain_group=None))
    exactly(back[inverses[product]], x, "undoing the word")
    distinct = len({o.tobytes() for o in once}) == order
    return {"nontrivial": order > 1 and distinct, "labels": [name, f"word of {len(spec['word'])}"] + (["faithful"] if distinct else [])}
