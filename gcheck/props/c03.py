import ml_dtypes
from hypothesis import strategies as st

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import sut

RULE = (
    "Per pair (group, acting subgroup): random grid signal with any number of extra axes, the spatial axes anywhere in "
    "increasing or other order, any position of the new axis, axes counted from the front or the end, eager, compiled or vectorised over an extra axis, every common dtype, special float values (nan, inf, -0), "
    "compared bit by bit with numpy transposes and flips. Non-trivial: more than one entry, more than one acting "
    "element, and some element changes the signal."
)
ASSUMPTIONS = [
    "the group leaves the shape of the grid unchanged",
    "64 bit dtypes are not available in the Keras JAX backend without x64 and are not generated",
]
EXAMPLES = {"quick": 14, "thorough": 300}
DTYPES = ["float32", "float32", "int32", "uint8", "int8", "int16", "uint16", "uint32", "float16", "bfloat16", "bool"]


def strata(tier):
    return [{"group": g, "sub": h, "weight": 1} for g, h in ref.PAIRS]


@st.composite
def strategy(draw, stratum):
    g = stratum["group"]
    n = ref.dims(g)
    rank = n + draw(st.sampled_from([0, 1, 2, 2, 3]))
    axes = draw(st.permutations(range(rank)))[:n]
    mode = draw(st.integers(0, 3))
    if mode < 3:
        axes = sorted(axes)
    if rank == n + 2 and mode == 0:
        axes = list(range(1, n + 1))
    size = draw(per_axis(st.integers(1, 5), ref.mixed_axes(g), n, True))
    shape = [draw(st.integers(1, 3)) for _ in range(rank)]
    unusual = draw(st.integers(0, 11))
    if unusual == 0:
        size = [s + 20 if n == 2 else s + 5 for s in size]
    elif unusual == 1:
        shape[draw(st.integers(0, rank - 1))] = draw(st.sampled_from([0, 9]))
    for a, s in zip(axes, size):
        shape[a] = s
    return {
        "group": g,
        "sub": stratum["sub"],
        "shape": shape,
        "axes": list(axes),
        "new": draw(st.integers(0, rank)),
        "dtype": draw(st.sampled_from(DTYPES)),
        "special": draw(st.integers(0, 4)) == 0,
        "style": draw(st.sampled_from(["tensor", "tensor", "numpy"])),
        "none": draw(st.booleans()),
        "negative": [draw(st.integers(0, 3)) == 0 for _ in range(n + 1)],
        "how": draw(st.sampled_from(["eager"] * 8 + ["jit", "vmap"])),
        "data": draw(data(("distinct", "int", "float"))),
    }


def run(spec):
    name, sub = spec["group"], spec["sub"]
    dtype = spec["dtype"]
    x = array(spec["shape"], spec["data"])
    if spec["special"] and dtype.startswith(("float", "bfloat")):
        flat = x.reshape(-1)
        for i, v in enumerate([np.nan, np.inf, -np.inf, -0.0, 1e38]):
            if flat.size > 2 * i:
                flat[2 * i] = v
    if dtype.startswith("u"):
        x = np.abs(x)
    with np.errstate(all="ignore"):
        x = x.astype(ml_dtypes.bfloat16 if dtype == "bfloat16" else dtype)
    axes, new = tuple(spec["axes"]), spec["new"]
    flip = spec.get("negative", [False] * (len(axes) + 1))
    given_axes = tuple(a - x.ndim if f else a for a, f in zip(axes, flip))
    kw = {"spatial_axes": given_axes, "new_group_axis": new - x.ndim - 1 if flip[-1] else new, "domain_group": None}
    if axes == (1, 2) and spec["none"]:
        del kw["spatial_axes"]
    if new == 0 and spec["none"]:
        del kw["new_group_axis"]
    if sub != name or not spec["none"]:
        kw["acting_group"] = sub
    given = tensor(x) if spec["style"] == "tensor" else x
    how = spec.get("how", "eager")
    with sut(f"{name} acting with {sub} on a signal of shape {spec['shape']} ({how})"):
        y = under(how, lambda v: group(name).action(v, **kw), given)
        kept = str(y.dtype).split(".")[-1]
        out = numpy(y)
    require(kept == dtype, f"dtype {dtype} became {kept}")
    expected = np.stack([ref.act(e, x, axes) for e in elements(sub)], axis=new)
    require(out.shape == expected.shape, f"shape {out.shape}, expected {expected.shape}")
    require(out.astype(expected.dtype).tobytes() == expected.tobytes(), "values were changed or moved elsewhere")
    changed = len({ref.act(e, x, axes).tobytes() for e in elements(sub)}) > 1
    return {
        "nontrivial": changed,
        "labels": [dtype, how, f"rank {len(spec['shape'])}"]
        + (["adjacent axes"] if list(axes) == list(range(axes[0], axes[0] + len(axes))) else ["other axes"])
        + (["negative axes"] if any(flip) else [])
        + (["special values"] if spec["special"] else []),
    }
