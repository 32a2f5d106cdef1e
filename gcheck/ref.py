"""Reference model: what GroCo's layers and groups are documented to compute, in plain numpy.

Nothing in this file imports groco or keras.  An element of a symmetry group of the square or cube is a
signed permutation matrix, kept as a pair (perm, signs): row i of the matrix has signs[i] in column perm[i].
It acts on a signal f on a grid by (M.f)(x) = f(M^-1 x), with x measured from the centre of the grid.
"""
import functools
import itertools

import numpy as np

# ---------------------------------------------------------------- signed permutation matrices


def identity(n):
    return (tuple(range(n)), (1,) * n)


def compose(a, b):
    """a after b."""
    # row i of a.b: signs_a[i] * (row perm_a[i] of b)
    perm = tuple(b[0][a[0][i]] for i in range(len(a[0])))
    signs = tuple(a[1][i] * b[1][a[0][i]] for i in range(len(a[0])))
    return (perm, signs)


def inverse(a):
    n = len(a[0])
    perm, signs = [0] * n, [0] * n
    for i in range(n):
        perm[a[0][i]] = i
        signs[a[0][i]] = a[1][i]
    return (tuple(perm), tuple(signs))


def det(a):
    n = len(a[0])
    sign = 1
    for i in range(n):
        for j in range(i + 1, n):
            if a[0][i] > a[0][j]:
                sign = -sign
    for s in a[1]:
        sign *= s
    return sign


def act(a, arr, axes):
    """(a.f) for the array f, the grid axes being `axes` (in this order)."""
    order = list(range(arr.ndim))
    for i, ax in enumerate(axes):
        order[ax] = axes[a[0][i]]
    out = np.transpose(arr, order)
    flips = tuple(ax for i, ax in enumerate(axes) if a[1][i] == -1)
    return np.flip(out, flips) if flips else out


def act_shape(a, shape, axes):
    shape = list(shape)
    new = list(shape)
    for i, ax in enumerate(axes):
        new[ax] = shape[axes[a[0][i]]]
    return tuple(new)


def _all(n):
    return [(p, s) for p in itertools.permutations(range(n)) for s in itertools.product((1, -1), repeat=n)]


_E2 = _all(2)
_E3 = _all(3)

# the symmetry groups as the README describes them; 2D axes are (height, width)
DOCUMENTED = {
    "P1": [e for e in _E2 if e == identity(2)],
    "P2": [e for e in _E2 if e[0] == (0, 1) and e[1][0] == e[1][1]],
    "PMh": [e for e in _E2 if e[0] == (0, 1) and e[1][1] == 1],
    "PMw": [e for e in _E2 if e[0] == (0, 1) and e[1][0] == 1],
    "P2MM": [e for e in _E2 if e[0] == (0, 1)],
    "P4": [e for e in _E2 if det(e) == 1],
    "P4M": list(_E2),
    "Oh": list(_E3),
    "O": [e for e in _E3 if det(e) == 1],
    "D4h": [e for e in _E3 if e[0][2] == 2],
    "D4": [e for e in _E3 if e[0][2] == 2 and det(e) == 1],
}
NAMES_2D = ["P1", "P2", "PMh", "PMw", "P2MM", "P4", "P4M"]
NAMES_3D = ["D4", "D4h", "O", "Oh"]
NAMES = NAMES_2D + NAMES_3D


def dims(name):
    return 2 if name in NAMES_2D else 3


def order(name):
    return len(DOCUMENTED[name])


def contained(name):
    """Names of the documented groups contained in `name`, largest first."""
    own = set(DOCUMENTED[name])
    subs = [n for n in NAMES if dims(n) == dims(name) and set(DOCUMENTED[n]) <= own]
    return sorted(subs, key=lambda n: (-order(n), n))


PAIRS = [(g, h) for g in NAMES for h in contained(g)]


def mixed_axes(name):
    """Sets of spatial axes that the group maps into each other, so must have equal sizes."""
    return mixed_axes_of(DOCUMENTED[name])


def mixed_axes_of(elements):
    n = len(elements[0][0])
    sets = [{i} for i in range(n)]
    for p, _ in elements:
        for i in range(n):
            a = next(s for s in sets if i in s)
            b = next(s for s in sets if p[i] in s)
            if a is not b:
                sets.remove(b)
                a |= b
    return [tuple(sorted(s)) for s in sets]


def generated(generators):
    """The group generated by some elements."""
    found = {identity(len(generators[0][0]))}
    new = set(found)
    while new:
        new = {compose(a, b) for a in new for b in generators} - found
        found |= new
    return frozenset(found)


@functools.lru_cache(None)
def subgroups(n):
    """All groups of symmetries of the square or cube (10 and 98), smallest first."""
    everything = _E2 if n == 2 else _E3
    found = {generated([e]) for e in everything}
    cyclic = list(found)
    for _ in range(2):
        found |= {generated(list(a | b)) for a in found for b in cyclic}
    return sorted((tuple(sorted(s)) for s in found), key=lambda s: (len(s), s))


# ---------------------------------------------------------------- padding arithmetic


def effective(k, d):
    return (k - 1) * d + 1


def keras_same(n, k, s):
    """Total padding and amount before of Keras's 'same' for size n, (effective) kernel k, stride s."""
    total = max((-(-n // s) - 1) * s + k - n, 0)
    return total, total // 2


def equivariant_padding(n, k, s, same):
    """(extra, built_in) for one axis: the least extra padding for which the total is even and the windows
    end at the border; None if there is none."""
    built_in = keras_same(n, k, s)[0] if same else 0
    for e in range(0, 2 * s + 2):
        if (n + built_in + e - k) % s == 0 and (built_in + e) % 2 == 0:
            return e, built_in
    return None


def plain_allowed(n, k, s, same):
    """Whether plain valid/same padding keeps equivariance on one axis."""
    built_in = keras_same(n, k, s)[0] if same else 0
    return built_in % 2 == 0 and (n + built_in - k) % s == 0


def layer_padding(ns, ks, ss, ds, padding, allow=False):
    """Per axis (before, after) of *all* padding done by a (non transposed) layer, or None when it must refuse."""
    option = padding.lower()
    same = option.startswith("same")
    out = []
    for n, k, s, d in zip(ns, ks, ss, ds):
        k = effective(k, d)
        if option.endswith("_equiv"):
            r = equivariant_padding(n, k, s, same)
            if r is None:
                return None
            total = r[0] + r[1]
            out.append((total // 2, total // 2))
        else:
            if not allow and not plain_allowed(n, k, s, same):
                return None
            if same:
                total, low = keras_same(n, k, s)
                out.append((low, total - low))
            else:
                out.append((0, 0))
    return out


def extra_padding(ns, ks, ss, ds, padding, allow=False):
    """Per axis (before, after) of the padding added on top of Keras's own, or None when it must be refused."""
    full = layer_padding(ns, ks, ss, ds, padding, allow)
    if full is None:
        return None
    out = []
    for (lo, hi), n, k, s, d in zip(full, ns, ks, ss, ds):
        k = effective(k, d)
        total, low = keras_same(n, k, s) if padding.lower().startswith("same") else (0, 0)
        out.append((lo - low, hi - (total - low)))
    return out


# ---------------------------------------------------------------- convolutions on channels_last numpy arrays


def pad(x, pads, value=0.0):
    widths = [(0, 0)] + list(pads) + [(0, 0)] * (x.ndim - 1 - len(pads))
    return np.pad(x, widths, constant_values=value)


def conv(x, kernel, strides, dilation):
    """Plain valid cross-correlation. x: (batch, *space, cin), kernel: (*k, cin, cout)."""
    n = x.ndim - 2
    ks = kernel.shape[:n]
    outs = [(x.shape[1 + i] - effective(ks[i], dilation[i])) // strides[i] + 1 for i in range(n)]
    out = np.zeros((x.shape[0],) + tuple(outs) + (kernel.shape[-1],))
    for off in itertools.product(*[range(k) for k in ks]):
        sl = tuple(
            slice(o * d, o * d + (m - 1) * s + 1, s) for o, d, m, s in zip(off, dilation, outs, strides)
        )
        out += x[(slice(None),) + sl] @ kernel[off]
    return out


def conv_transpose(x, kernel, strides, dilation=None):
    """Full transposed convolution. x: (batch, *space, cin), kernel: (*k, cin, cout)."""
    n = x.ndim - 2
    ks = kernel.shape[:n]
    dilation = dilation or (1,) * n
    outs = [(x.shape[1 + i] - 1) * strides[i] + effective(ks[i], dilation[i]) for i in range(n)]
    out = np.zeros((x.shape[0],) + tuple(outs) + (kernel.shape[-1],))
    for off in itertools.product(*[range(k) for k in ks]):
        sl = tuple(
            slice(o * d, o * d + (m - 1) * s + 1, s) for o, d, m, s in zip(off, dilation, x.shape[1:-1], strides)
        )
        out[(slice(None),) + sl] += x @ kernel[off]
    return out


ACTIVATIONS = {
    None: lambda v: v,
    "linear": lambda v: v,
    "relu": lambda v: np.maximum(v, 0),
    "tanh": np.tanh,
    "sigmoid": lambda v: 1 / (1 + np.exp(-v)),
    "elu": lambda v: np.where(v > 0, v, np.expm1(np.minimum(v, 0))),
    "softplus": lambda v: np.logaddexp(0, v),
}


def transformed_kernels(kernel, acting, domain, n):
    """kernel: (*k, [domain,] cin, f) -> list over acting elements of the transformed kernel.

    (g.K)(y) = K(g^-1 y), or (g.K)(y, d) = K(g^-1 y, g^-1 d), zero where g^-1 d is outside the domain."""
    axes = tuple(range(n))
    res = []
    for g in acting:
        moved = act(g, kernel, axes)
        if domain is not None:
            g_inv = inverse(g)
            index = {d: i for i, d in enumerate(domain)}
            parts = []
            for d in domain:
                i = index.get(compose(g_inv, d))
                parts.append(np.zeros_like(moved[(slice(None),) * n + (0,)]) if i is None
                             else moved[(slice(None),) * n + (i,)])
            moved = np.stack(parts, axis=n)
        res.append(moved)
    return res


def group_conv(x, kernel, bias, acting, domain, strides, dilation, padding, allow, activation, groups=1):
    """x: (batch, *space, [|domain|,] cin); kernel: (*k, [|domain| *] cin / groups, f) as the layer stores it.
    Returns (batch, *space', |acting|, f), or None if the layer must refuse."""
    if groups > 1:  # Keras' groups: separate convolutions of the channels, side by side
        parts = zip(np.split(x, groups, -1), np.split(kernel, groups, -1), [None] * groups if bias is None else np.split(bias, groups))
        outs = [group_conv(x_, k_, b_, acting, domain, strides, dilation, padding, allow, activation) for x_, k_, b_ in parts]
        return None if outs[0] is None else np.concatenate(outs, -1)
    n = len(strides)
    ks = kernel.shape[:n]
    pads = layer_padding(x.shape[1:1 + n], ks, strides, dilation, padding, allow)
    if pads is None:
        return None
    x = pad(x, pads)
    f = kernel.shape[-1]
    if domain is not None:
        kernel = kernel.reshape(ks + (len(domain), -1, f))
        x = x.reshape(x.shape[:1 + n] + (-1,))
    outs = []
    for gk in transformed_kernels(kernel, acting, domain, n):
        o = conv(x, gk.reshape(ks + (-1, f)), strides, dilation)
        outs.append(o + bias if bias is not None else o)
    return ACTIVATIONS[activation](np.stack(outs, axis=1 + n))


def group_conv_transpose(x, kernel, bias, acting, domain, strides, padding, activation, dilation=None):
    """x: (batch, *space, [|domain|,] cin); kernel: (*k, f, [|domain| *] cin) as the layer stores it.
    Only stride 1 (any padding) and stride = kernel (valid) are specified.  None where it must refuse."""
    n = len(strides)
    ks = kernel.shape[:n]
    f = kernel.shape[n]
    dilation = dilation or (1,) * n
    option = padding.lower()
    crop = []
    for k, s, d in zip(ks, strides, dilation):
        k = effective(k, d)
        if option.startswith("same"):
            assert s == 1
            total = k - 1
            if total % 2 and option == "same":
                return None
            # one extra row of zeros makes up for an odd total: the crop is then one less
            crop.append(total // 2)
        else:
            crop.append(0)
    kernel = np.moveaxis(kernel, n, -1)  # (*k, [domain*]cin, f)
    if domain is not None:
        kernel = kernel.reshape(ks + (len(domain), -1, f))
        x = x.reshape(x.shape[:1 + n] + (-1,))
    outs = []
    for gk in transformed_kernels(kernel, acting, domain, n):
        o = conv_transpose(x, gk.reshape(ks + (-1, f)), strides, dilation)
        sl = tuple(slice(c, o.shape[1 + i] - c) for i, c in enumerate(crop))
        o = o[(slice(None),) + sl]
        outs.append(o + bias if bias is not None else o)
    return ACTIVATIONS[activation](np.stack(outs, axis=1 + n))


# ---------------------------------------------------------------- pooling


def group_pool(x, group, sub, reps, pool, strides, padding, allow, kind):
    """x: (batch, *space, |G|, c), group: elements of G in order, sub: elements of H in order, reps: elements."""
    n = len(pool)
    index = {g: i for i, g in enumerate(group)}
    x = np.stack(
        [np.stack([x[..., index[compose(h, c)], :] for c in reps]) for h in sub], axis=0
    )  # (|H|, |reps|, batch, *space, c)
    x = x.max(axis=1) if kind == "max" else x.mean(axis=1)
    x = np.moveaxis(x, 0, 1 + n)
    ones = (1,) * n
    pads = layer_padding(x.shape[1:1 + n], pool, strides, ones, padding, allow)
    if pads is None:
        return None
    extra = extra_padding(x.shape[1:1 + n], pool, strides, ones, padding, allow)
    zeros = any(e != (0, 0) for e in extra)  # else Keras's own padding, whose cells are not counted
    valid = np.ones(x.shape[1:1 + n])
    x = pad(x, pads, 0.0 if zeros or kind != "max" else -np.inf)
    valid = np.pad(valid, pads, constant_values=1.0 if zeros else 0.0)
    outs = [(x.shape[1 + i] - pool[i]) // strides[i] + 1 for i in range(n)]
    acc = None
    for off in itertools.product(*[range(k) for k in pool]):
        sl = tuple(slice(o, o + (m - 1) * s + 1, s) for o, m, s in zip(off, outs, strides))
        v = x[(slice(None),) + sl]
        if kind == "max":
            acc = v if acc is None else np.maximum(acc, v)
        else:
            c = valid[sl]
            acc = (v, c) if acc is None else (acc[0] + v, acc[1] + c)
    if kind == "max":
        return acc
    total, count = acc
    return total / count.reshape((1,) + count.shape + (1,) * (x.ndim - 1 - n))


# ---------------------------------------------------------------- signals on a group


def act_on_group_signal(x, axes, group_axis, acting, domain):
    """List over acting elements g of the signal (x, d) -> f(g^-1 x, g^-1 d), f zero outside the domain,
    with d over `full` (the elements for which the result is wanted): here the domain itself."""
    index = {d: i for i, d in enumerate(domain)}
    res = []
    for g in acting:
        g_inv = inverse(g)
        moved = act(g, x, axes)
        zero = np.zeros_like(np.take(moved, 0, axis=group_axis))
        parts = []
        for d in domain:
            i = index.get(compose(g_inv, d))
            parts.append(zero if i is None else np.take(moved, i, axis=group_axis))
        res.append(np.stack(parts, axis=group_axis))
    return res
