"""The promises of the other properties, on another Keras backend."""
from hypothesis import strategies as st

from gcheck.common import *  # noqa: F403
from gcheck.engine import load

BACKEND = "numpy"
RULE = (
    "Every case of C01 to C14, C16 to C22 and C24 (their generators and oracles, see there), with "
    "Keras on its NumPy backend instead of JAX. Non-trivial as under that property."
)
ASSUMPTIONS = [
    "of the backends of Keras, only JAX and NumPy can be run here; the latter without compilation, gradients and fit",
    "Keras' NumPy backend borrows convert_to_tensor of its PyTorch backend, which is replaced by NumPy's asarray",
    "Keras' NumPy backend convolves with JAX",
]
EXAMPLES = {"quick": 1, "thorough": 30}

# how much of the quick examples of each property
SHARE = {
    "C01": 1, "C02": 1, "C03": 1, "C04": 1, "C05": 1, "C06": 1, "C07": 1, "C08": 1, "C09": 1, "C10": 1, "C11": 1, "C12": 1, "C13": 1, "C14": 1,
    "C16": 1, "C17": 1, "C18": 1, "C19": 1, "C20": 1, "C21": 1, "C22": 1, "C24": 1,
}


def strata(tier):
    out = []
    for pid, share in SHARE.items():
        prop = load(pid)
        for stratum in prop.strata(tier):
            n = prop.EXAMPLES["quick"] * share * stratum.get("weight", 1)
            out.append({"of": pid, "stratum": stratum, "weight": max(1, n)})
    return out


@st.composite
def strategy(draw, stratum):
    case = draw(load(stratum["of"]).strategy(stratum["stratum"]))
    if stratum["of"] == "C19":
        case.get("options", {}).pop("dtype", None)  # NumPy adds up 16 bit numbers one by one
        case.pop("input_dtype", None)  # nor are the dtypes of its pooling those of its convolutions
        case.pop("as_tensor", None)
    return {"of": stratum["of"], "case": case}


def run(spec):
    info = load(spec["of"]).run(spec["case"]) or {}
    return {"nontrivial": info.get("nontrivial", True), "labels": [spec["of"]]}
