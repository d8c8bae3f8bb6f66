"""scipy.ndimage over symbolic arrays: real scipy on concrete data, a model of binary dilation otherwise."""
import types

import numpy as np
import scipy
import scipy.ndimage

from . import core, snp


def natural(x):
    n = snp.to_native(x)
    return x if n is None else n


def binary_dilation(input, structure=None, iterations=1, mask=None, output=None, border_value=0, origin=0, brute_force=False):
    a = snp.to_native(input)
    if a is not None:
        return scipy.ndimage.binary_dilation(a, natural(structure), int(natural(iterations)), natural(mask), output, border_value, origin, brute_force)
    if mask is not None or output is not None or origin != 0 or border_value:
        raise NotImplementedError("binary_dilation of symbolic data with these options")
    s = np.array(scipy.ndimage.generate_binary_structure(input.ndim, 1) if structure is None else natural(structure), dtype=bool)
    if any(k % 2 == 0 for k in s.shape):
        raise NotImplementedError("even structuring element")
    offs = [tuple(int(o) - k // 2 for o, k in zip(i, s.shape)) for i in np.argwhere(s)]
    cur = snp.obj(input)
    cur = [core.fof(x) for x in cur.reshape(-1).view(np.ndarray)]
    shape = input.shape
    for _ in range(int(natural(iterations))):
        g = np.empty(shape, dtype=object)
        g.reshape(-1)[:] = [None] * len(cur)
        for i, c in zip(np.ndindex(*shape), cur):
            g[i] = c
        nxt = []
        for i in np.ndindex(*shape):
            near = []
            for o in offs:
                j = tuple(a - b for a, b in zip(i, o))
                if all(0 <= a < n for a, n in zip(j, shape)):
                    near.append(g[j])
            nxt.append(core.for_(*near))
        cur = nxt
    out = snp.SymArray(shape, dtype=object)
    for i, c in zip(np.ndindex(*shape), cur):
        out.view(np.ndarray)[i] = core.SB(c)
    return out


def generic(f):
    def g(*a, **k):
        def nat(x):
            if not snp.has_sym(x) and not isinstance(x, snp.SymArray):
                return x
            n = snp.to_native(x)
            if n is None:
                raise NotImplementedError(f"scipy.ndimage.{f.__name__} of symbolic data")
            return n

        return f(*[nat(x) for x in a], **{n: nat(x) for n, x in k.items()})

    return g


class _ND(types.ModuleType):
    def __getattr__(self, n):
        v = getattr(scipy.ndimage, n)
        return generic(v) if callable(v) else v


ndimage = _ND("scipy.ndimage")
ndimage.binary_dilation = binary_dilation


class _SP(types.ModuleType):
    def __getattr__(self, n):
        return ndimage if n == "ndimage" else getattr(scipy, n)


sp = _SP("scipy")


def install(mods):
    own = {id(getattr(scipy.ndimage, n)): n for n in dir(scipy.ndimage) if callable(getattr(scipy.ndimage, n))}
    for m in mods:
        for n, v in list(vars(m).items()):
            if v is scipy.ndimage:
                setattr(m, n, ndimage)
            elif v is scipy:
                setattr(m, n, sp)
            elif id(v) in own and getattr(scipy.ndimage, own[id(v)]) is v and callable(v):
                setattr(m, n, getattr(ndimage, own[id(v)]))
