import keras
from hypothesis import strategies as st
from keras import ops

from gcheck import ref
from gcheck.common import *  # noqa: F403
from gcheck.engine import attempt, sut
from groco import utils

RULE = (
    "Random tensors (rank 2 to 6, several dtypes, distinct values, sizes including 0 and 1) and axes (both counted from "
    "the front or both from the back): merging, splitting, moving and index tensors against plain numpy loops, split "
    "after merge and merge after split against the original, the shape functions against the shapes of the tensors, "
    "and symbolic tensors with unknown batch size. Non-trivial: at least two axes longer than one."
)
ASSUMPTIONS = ["two axes are both counted from the front or both from the back", "the unknown batch axis is not merged or split"]
EXAMPLES = {"quick": 60, "thorough": 2500}


def strata(tier):
    return [{"op": op, "rank": r} for r in (2, 3, 4, 5, 6) for op in ("merge", "split", "move", "index")]


@st.composite
def strategy(draw, stratum):
    r, op = stratum["rank"], stratum["op"]
    shape = [draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5] + ([0] if r < 4 else []))) for _ in range(r)]
    a, b = draw(st.permutations(range(r)))[:2]
    factor = 1
    if op == "split":
        factor = draw(st.integers(1, 4))
        shape[a] = factor * draw(st.integers(1, 3)) + (draw(st.integers(0, 9)) == 0)
    return {
        "op": op,
        "shape": shape,
        "a": a,
        "b": b,
        "factor": factor,
        "back": draw(st.booleans()),
        "dtype": draw(st.sampled_from(["float32", "int32", "float16", "uint8", "bool"])),
        "seed": draw(seeds),
        "as_tuple": draw(st.booleans()),
        "keyword": draw(st.booleans()),
    }


def run(spec):
    op, shape, a, b = spec["op"], spec["shape"], spec["a"], spec["b"]
    r = len(shape)
    x = array(shape, {"kind": "distinct", "seed": spec["seed"]}).astype(spec["dtype"])
    t = tensor(x)
    a_, b_ = (a - r, b - r) if spec["back"] else (a, b)
    given_shape = tuple(shape) if spec["as_tuple"] else list(shape)
    batch_free = 0 not in (a, b) or (op == "split" and a != 0)
    symbolic = keras.KerasTensor([None] + shape[1:], spec["dtype"])
    labels = [op, f"rank {r}", spec["dtype"]] + (["from the back"] if spec["back"] else [])

    def kept(y):
        require(str(y.dtype).split(".")[-1] == spec["dtype"], f"dtype {spec['dtype']} became {y.dtype}")
        return numpy(y)

    def shapes(y, computed, symbolic_result):
        require(isinstance(computed, list), f"shape computed as {type(computed).__name__}")
        require(list(y.shape) == list(computed), f"computed shape {computed}, actual {y.shape}")
        if symbolic_result is not None:
            got = list(symbolic_result.shape)
            require(got == [None] + list(y.shape[1:]), f"symbolic shape {got}, actual {y.shape}")

    # moving a to the left of b
    moved_order = [i for i in range(r) if i != a]
    moved_order.insert(moved_order.index(b), a)
    moved = np.transpose(x, moved_order)
    if op == "move":
        with sut("move_axis_to_left_of"):
            y = kept(utils.move_axis_to_left_of(t, a_, b_) if not spec["keyword"] else utils.move_axis_to_left_of(t, moved_axis=a_, target_axis=b_))
        exactly(y, moved, "moved tensor")
    elif op == "merge":
        position = moved_order.index(a)
        want = moved.reshape(moved.shape[:position] + (moved.shape[position] * moved.shape[position + 1],) + moved.shape[position + 2:])
        with sut("merge_axes"):
            y = kept(utils.merge_axes(t, merged_axis=a_, target_axis=b_))
            computed = utils.merge_shapes(given_shape, merged_axis=a_, target_axis=b_)
            s = utils.merge_axes(symbolic, merged_axis=a_, target_axis=b_) if batch_free and 0 not in shape else None
        exactly(y, want, "merged tensor")
        shapes(y, computed, s)
        require(list(given_shape) == shape, "merge_shapes changed its argument")
        if batch_free:
            with sut("merge_shapes with unknown batch"):
                unknown = utils.merge_shapes([None] + shape[1:], merged_axis=a_, target_axis=b_)
            require(unknown == [None] + list(y.shape[1:]), f"computed shape {unknown}, actual {y.shape}")
        if 0 not in shape:
            with sut("split_axes after merge_axes"):
                back = kept(utils.split_axes(tensor(y), left_size=shape[a], right_axis=position if not spec["back"] else position - (r - 1)))
            exactly(back, moved, "merged and split again")
    elif op == "split":
        f = spec["factor"]
        if shape[a] % f:
            ok, y = attempt(utils.split_axes, t, left_size=f, right_axis=a_)
            require(not ok or x.size == 0, "split an axis into unequal parts")
            return {"nontrivial": True, "labels": labels + ["refused"]}
        want = x.reshape(shape[:a] + [f, shape[a] // f] + shape[a + 1:])
        with sut("split_axes"):
            y = kept(utils.split_axes(t, left_size=f, right_axis=a_))
            computed = utils.split_shapes(given_shape, f, a_)
            s = utils.split_axes(symbolic, left_size=f, right_axis=a_) if a != 0 and 0 not in shape else None
        exactly(y, want, "split tensor")
        shapes(y, computed, s)
        require(list(given_shape) == shape, "split_shapes changed its argument")
        with sut("merge_axes after split_axes"):
            back = kept(utils.merge_axes(tensor(y), merged_axis=a if not spec["back"] else a - r - 1, target_axis=a + 1 if not spec["back"] else a - r))
        exactly(back, x, "split and merged again")
    else:
        with sut("get_index_tensor"):
            index = numpy(utils.get_index_tensor(t))
        require(np.issubdtype(index.dtype, np.integer), f"indices of dtype {index.dtype}")
        exactly(index, np.arange(x.size).reshape(shape), "index tensor")
        with sut("gathering"):
            y = kept(ops.take(ops.reshape(t, [-1]), indices=tensor(index))) if x.size else x
        exactly(y, x, "gathered tensor")
    return {"nontrivial": sum(s > 1 for s in shape) >= 2 and x.size > 1, "labels": labels}
