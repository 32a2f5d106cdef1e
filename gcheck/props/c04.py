from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut

RULE = (
    "Per group and pair of subgroups (acting, domain): random signal on the domain with any number of extra axes, the "
    "spatial axes and the group axis anywhere, any position of the new axis, axes counted from the front or the end, eager, compiled or vectorised over an extra axis, int and float dtypes; compared exactly "
    "with f(g^-1 x, g^-1 h), zero outside the domain. If the acting group maps the domain to itself, every acting "
    "element acts on every result and must agree with the product. Extending to the whole group is compared as well. "
    "Non-trivial: more than one acting element and some element changes the signal."
)
ASSUMPTIONS = ["the group leaves the shape of the grid unchanged"]
EXAMPLES = {"quick": 6, "thorough": 160}


def strata(tier):
    return [
        {"group": g, "acting": a, "domain": d, "weight": 0.5 if ref.order(g) > 16 else 1}
        for g in ref.NAMES for a in ref.contained(g) for d in ref.contained(g)
    ]


@st.composite
def strategy(draw, stratum):
    g = stratum["group"]
    n = ref.dims(g)
    rank = n + 1 + draw(st.sampled_from([0, 1, 2, 2]))
    if draw(st.integers(0, 2)) == 0:
        places = list(range(n + 1))
        off = draw(st.integers(0, rank - n - 1))
        axes, group_axis = [p + off for p in places[:n]], places[n] + off
    else:
        places = draw(st.permutations(range(rank)))
        axes, group_axis = list(places[:n]), places[n]
        if draw(st.booleans()):
            axes = sorted(axes)
    size = draw(per_axis(st.integers(1, 4), ref.mixed_axes(g), n, True))
    shape = [draw(st.integers(1, 3)) for _ in range(rank)]
    unusual = draw(st.integers(0, 11)) if ref.order(g) <= 16 else None
    if unusual == 0:
        size = [s + 12 if n == 2 else s + 3 for s in size]
    elif unusual == 1:
        shape[draw(st.integers(0, rank - 1))] = draw(st.sampled_from([0, 7]))
    for a, s in zip(axes, size):
        shape[a] = s
    shape[group_axis] = ref.order(stratum["domain"])
    return {
        "group": g,
        "acting": stratum["acting"],
        "domain": stratum["domain"],
        "shape": shape,
        "axes": axes,
        "group_axis": group_axis,
        "new": draw(st.integers(0, rank)),
        "dtype": draw(st.sampled_from(["float32", "float32", "int32", "float16"])),
        "implicit": draw(st.booleans()),
        "negative": [draw(st.integers(0, 3)) == 0 for _ in range(n + 2)],
        "how": draw(st.sampled_from(["eager"] * 8 + ["jit", "vmap"])),
        "data": draw(data(("distinct", "int", "float"))),
    }


def run(spec):
    name, acting, domain = spec["group"], spec["acting"], spec["domain"]
    axes, group_axis, new = tuple(spec["axes"]), spec["group_axis"], spec["new"]
    g = group(name)
    x = array(spec["shape"], spec["data"]).astype(spec["dtype"])
    flip = spec.get("negative", [False] * (len(axes) + 2))
    how = spec.get("how", "eager")
    kw = {
        "spatial_axes": tuple(a - x.ndim if f else a for a, f in zip(axes, flip)),
        "group_axis": group_axis - x.ndim if flip[-2] else group_axis,
        "new_group_axis": new - x.ndim - 1 if flip[-1] else new,
    }
    if not (spec["implicit"] and acting == name):
        kw["acting_group"] = acting
    if not (spec["implicit"] and domain == name):
        kw["domain_group"] = domain
    with sut(f"{name} acting with {acting} on a signal on {domain}"):
        y = under(how, lambda v: g.action(v, **kw), tensor(x))
        require(str(y.dtype).split(".")[-1] == spec["dtype"], f"dtype {spec['dtype']} became {y.dtype}")
        out = numpy(y)
    a_elts, d_elts = elements(acting), elements(domain)
    moved = ref.act_on_group_signal(x, axes, group_axis, a_elts, d_elts)
    exactly(out, np.stack(moved, axis=new), f"{name} acting with {acting} on a signal on {domain}")
    labels = [how, f"rank {len(spec['shape'])}"] + (["negative axes"] if any(flip) else [])
    if set(a_elts) <= set(d_elts) and out.size * len(a_elts) < 2e6:
        # act on all results at once
        axes2 = tuple(a + (a >= new) for a in axes)
        group_axis2 = group_axis + (group_axis >= new)
        with sut("acting again"):
            twice = numpy(
                g.action(
                    tensor(out), spatial_axes=axes2, group_axis=group_axis2, new_group_axis=0, acting_group=acting, domain_group=domain
                )
            )
        index = {e: i for i, e in enumerate(a_elts)}
        first_axis = np.moveaxis(out, new, 0)
        for r, a in enumerate(a_elts):
            got = np.moveaxis(twice[r], new, 0)
            want = first_axis[[index[ref.compose(a, c)] for c in a_elts]]
            exactly(got, want, f"acting with element {r} of {acting} after the others, against the products")
        labels.append("composed")
    if domain != name:
        with sut("extending to the whole group"):
            up = numpy(under(how, lambda v: g.upsample(v, kw["group_axis"], domain), tensor(x)))
        index = {e: i for i, e in enumerate(d_elts)}
        zero = np.zeros_like(np.take(x, 0, axis=group_axis))
        want = np.stack(
            [np.take(x, index[e], axis=group_axis) if e in index else zero for e in elements(name)], axis=group_axis
        )
        exactly(up, want, f"signal on {domain} extended to {name}")
        labels.append("extended")
    return {"nontrivial": len(a_elts) > 1 and len({m.tobytes() for m in moved}) > 1, "labels": labels}
