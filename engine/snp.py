"""A numpy look-alike whose float arrays are object arrays of floats and symbolic numbers.

The repository's modules are loaded with this module in place of numpy.  Every array the
repository makes is a `SymArray`; every ufunc and array function applied to one comes
through `__array_ufunc__` / `__array_function__` below.
"""
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import SB, SR, INF, NAN, Infeasible, Unsupported, ctx, fof, mkb, sr_cmp, sr_ite

real_np = np


class _Meta(type):
    def __instancecheck__(cls, o):
        if cls.__dict__.get("_is_base"):
            return isinstance(o, np.ndarray)
        return type.__instancecheck__(cls, o)


class SymArray(np.ndarray, metaclass=_Meta):
    _is_base = True

    def __new__(cls, shape, dtype=float, *a, **k):
        return zeros(shape).view(cls)

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, ty, args, kw):
        return array_function(func, args, kw)

    # ---- indexing
    def __getitem__(self, k):
        if symbolic_index(k):
            return gather(self, k)
        r = np.ndarray.__getitem__(self, fix_index(k, self))
        return r

    def __setitem__(self, k, v):
        if masked_set(self, k, v):
            return
        k = fix_index(k, self)
        if self.dtype != object:
            x = to_native(v)
            if x is None:
                x = to_native(settle(v))
            if x is None:
                raise Unsupported("symbolic value stored in a native array")
            v = x
        elif isinstance(v, (SR, SB)):
            if isinstance(np.ndarray.__getitem__(self, k), np.ndarray):
                b = np.empty((), dtype=object)
                b[()] = v
                v = b
        else:
            v = base(v)
        np.ndarray.__setitem__(self, k, v)

    # ---- methods
    def sort(self, axis=-1, kind=None, order=None):
        self[...] = sort(self, axis)

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis, kind)

    def argmin(self, axis=None, out=None, keepdims=False):
        return argmin(self, axis)

    def argmax(self, axis=None, out=None, keepdims=False):
        return argmax(self, axis)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("minimum", self, axis, keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("maximum", self, axis, keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("logical_or", self, axis, keepdims)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return reduce_("logical_and", self, axis, keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_("add", self, axis, keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_("multiply", self, axis, keepdims)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return mean(self, axis, keepdims=keepdims)

    def dot(self, o):
        return dot(self, o)

    def cumsum(self, axis=None, **k):
        return cumsum(self, axis)

    def clip(self, min=None, max=None, **k):
        return clip(self, min, max)

    def nonzero(self):
        return nonzero(self)

    def astype(self, dtype, *a, **k):
        return astype(self, dtype)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def __bool__(self):
        if self.size == 1:
            return bool(np.ndarray.item(self))
        return np.ndarray.__bool__(self.view(np.ndarray))

    def __float__(self):
        return float(np.ndarray.item(self))

    def __int__(self):
        return int(np.ndarray.item(self))

    def __index__(self):
        if self.size == 1 and self.ndim == 0:
            return np.ndarray.item(self).__index__()
        raise TypeError("only integer scalar arrays can be converted to a scalar index")

    def __contains__(self, x):
        return any_([_eq(y, x) for y in self.reshape(-1).view(np.ndarray)])

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return self.view(np.ndarray).tolist()


def _eq(a, b):
    return S["equal"](a, b)


# --------------------------------------------------------------------------- conversion
def base(x):
    """strip SymArray wrappers (recursively through lists/tuples)"""
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        return type(x)(base(y) for y in x)
    return x


def has_sym(x):
    if isinstance(x, (SR, SB)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(y, (SR, SB)) for y in x.reshape(-1).view(np.ndarray))
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


def to_native(x):
    """native numpy value of a concrete array/scalar, None when symbolic"""
    if isinstance(x, SR):
        return core.concrete_value(x)
    if isinstance(x, SB):
        return None
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return x.view(np.ndarray)
        flat = []
        for y in x.reshape(-1).view(np.ndarray):
            if isinstance(y, SR):
                y = core.concrete_value(y)
                if y is None:
                    return None
            elif isinstance(y, SB):
                return None
            flat.append(y)
        if not flat:
            return np.zeros(x.shape)
        if all(isinstance(y, (bool, np.bool_)) for y in flat):
            return np.array(flat, dtype=bool).reshape(x.shape)
        if all(isinstance(y, (int, np.integer, bool, np.bool_)) for y in flat):
            return np.array(flat, dtype=np.int64).reshape(x.shape)
        return np.array(flat, dtype=float).reshape(x.shape)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        out = [to_native(y) for y in x]
        if any(y is None and z is not None for y, z in zip(out, x)):
            return None
        return type(x)(out)
    return x


def obj(x):
    """object ndarray (base class) holding x"""
    if isinstance(x, np.ndarray):
        x = x.view(np.ndarray)
        if x.dtype == object:
            return x
        o = np.empty(x.shape, dtype=object)
        if x.dtype.kind == "b":
            o[...] = x
        else:
            o.reshape(-1)[:] = x.reshape(-1).tolist() if x.ndim else [x.item()]
            if x.ndim == 0:
                o[()] = x.item()
        return o
    if isinstance(x, (SR, SB)) or np.isscalar(x) or x is None:
        o = np.empty((), dtype=object)
        o[()] = x
        return o
    return build(x)


def build(x):
    """object ndarray from nested sequences"""
    if isinstance(x, np.ndarray):
        return obj(x)
    if isinstance(x, (list, tuple, range)) or (hasattr(x, "__iter__") and not isinstance(x, (SR, SB, str))):
        parts = [build(y) for y in x]
        if not parts:
            return np.empty((0,), dtype=object)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        o = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            o[i] = p if p.ndim else p.item()
        return o
    if hasattr(x, "to_numpy"):
        return build(x.to_numpy())
    o = np.empty((), dtype=object)
    o[()] = x
    return o


def wrap_result(o, cls=SymArray):
    if isinstance(o, np.ndarray):
        return o.view(cls)
    return o


def result_class(args):
    cls = SymArray
    for a in args:
        if isinstance(a, np.ndarray) and type(a) is not np.ndarray and type(a) is not SymArray:
            t = type(a)
            if cls is SymArray or (issubclass(t, cls) and t is not cls):
                cls = t
    return cls


def symbolic_index(k):
    """an index array holds numbers that are a choice between constants"""
    for x in k if isinstance(k, tuple) else (k,):
        if isinstance(x, np.ndarray) and x.dtype == object and any(isinstance(y, SR) for y in x.view(np.ndarray).reshape(-1)):
            return True
    return False


def masked_set(a, k, v):
    """a[.., mask, ..] = v with a symbolic mask and a value that does not depend on how many are chosen: choose element by element"""
    if a.dtype != object or ctx() is None or ctx().policy == "fork":
        return False
    ks = list(k) if isinstance(k, tuple) else [k]
    at = [i for i, x in enumerate(ks) if isinstance(x, np.ndarray) and x.dtype == object and x.ndim and _issym(*x.view(np.ndarray).reshape(-1))]
    if len(at) != 1 or not all(isinstance(y, (SB, bool, np.bool_)) for y in ks[at[0]].view(np.ndarray).reshape(-1)):
        return False
    m = ks[at[0]].view(np.ndarray)
    if not all(i == at[0] or x is Ellipsis or isinstance(x, (slice, int, np.integer)) for i, x in enumerate(ks)):
        return False
    ints = [i for i, x in enumerate(ks) if isinstance(x, (int, np.integer)) and not isinstance(x, bool)]
    if any(abs(i - at[0]) > 1 for i in ints) or len(ints) > 1:
        return False  # numpy would move the chosen axis
    used = sum(0 if x is Ellipsis else m.ndim if i == at[0] else 1 for i, x in enumerate(ks))
    if used > a.ndim:
        raise IndexError("too many indices for array")
    if Ellipsis in [x for x in ks if not isinstance(x, np.ndarray)]:
        e = next(i for i, x in enumerate(ks) if x is Ellipsis)
        ks[e:e + 1] = [slice(None)] * (a.ndim - used)
    else:
        ks += [slice(None)] * (a.ndim - used)
    at = next(i for i, x in enumerate(ks) if isinstance(x, np.ndarray))
    post = len(ks) - at - 1 - sum(isinstance(x, (int, np.integer)) for x in ks[at + 1:])
    pre = at - sum(isinstance(x, (int, np.integer)) for x in ks[:at])
    val = obj(v)
    if val.ndim > post and val.shape[val.ndim - 1 - post] != 1 or val.ndim > pre + 1 + post:
        return False  # as many values as there are chosen elements
    sub = np.arange(a.size).reshape(a.shape)[tuple(ks[:at]) + (slice(None),) * m.ndim + tuple(ks[at + 1:])]
    if sub.shape[pre:pre + m.ndim] != m.shape:
        raise IndexError(f"boolean index did not match indexed array: {sub.shape[pre:pre + m.ndim]} and {m.shape}")
    if val.ndim > post:
        val = val.reshape(val.shape[:val.ndim - post] + (1,) * (m.ndim - 1) + val.shape[val.ndim - post:])
    full = np.broadcast_to(val, sub.shape)
    mask = np.broadcast_to(m.reshape(m.shape + (1,) * post), sub.shape)
    A = a.view(np.ndarray)
    for ix in np.ndindex(*sub.shape):
        pos = np.unravel_index(sub[ix], a.shape)
        A[pos] = ite_el(mask[ix], full[ix], A[pos])
    return True


def gather(a, k):
    """a[k] for index arrays with symbolic entries: each element becomes a choice"""
    k = k if isinstance(k, tuple) else (k,)
    if len(k) > a.ndim or not all(isinstance(x, (np.ndarray, int, np.integer, list)) for x in k):
        return np.ndarray.__getitem__(a, fix_index(k, a))
    ks = [base(build(x) if isinstance(x, list) else x) if not isinstance(x, (int, np.integer)) else x for x in k]
    b = np.broadcast_arrays(*[np.asarray(x) for x in ks])
    if any(x.dtype == bool for x in b):
        return np.ndarray.__getitem__(a, fix_index(k, a))
    sh = b[0].shape
    tail = a.shape[len(k):]
    out = np.empty(sh + tail, dtype=object)
    A = a.view(np.ndarray)
    for ix in np.ndindex(*sh):
        opts = [(True, ())]
        for x in b:
            y = x[ix]
            new = []
            for g, pre in opts:
                for h, l in core.alts_of(y) if isinstance(y, SR) else [(True, y)]:
                    gh = core.fand(g, h)
                    if gh is not False:
                        new.append((gh, pre + (int(l.const()) if isinstance(l, core.Poly) else int(l),)))
            opts = new
        for jx in np.ndindex(*tail):
            r = A[opts[-1][1] + jx]
            r = r.item() if isinstance(r, np.generic) else r
            for g, pos in reversed(opts[:-1]):
                e = A[pos + jx]
                e = e.item() if isinstance(e, np.generic) else e
                r = ite_el(mkb(g), e, r)
            out[ix + jx] = r
    return out.view(result_class([a]))


def settle(v):
    """fork until every symbolic element is one constant"""
    if isinstance(v, (SR, SB)):
        return bool(v) if isinstance(v, SB) else core.concretize(v)
    if isinstance(v, np.ndarray) and v.dtype == object:
        o = np.empty(v.shape, dtype=object)
        src = v.view(np.ndarray)
        for ix in np.ndindex(*v.shape):
            o[ix] = settle(src[ix])
        return o
    return v


def fix_index(k, arr):
    if isinstance(k, tuple):
        return tuple(fix_index1(x) for x in k)
    return fix_index1(k)


def fix_index1(k):
    if isinstance(k, SB):
        return bool(k)
    if isinstance(k, SR):
        return k.__index__()
    if isinstance(k, np.ndarray):
        k = k.view(np.ndarray)
        if k.dtype == object:
            flat = [concrete_index(y) for y in k.reshape(-1)]
            if k.size == 0:
                return np.zeros(k.shape, dtype=bool if False else int)
            if all(isinstance(y, (bool, np.bool_)) for y in flat):
                return np.array(flat, dtype=bool).reshape(k.shape)
            return np.array(flat, dtype=np.int64).reshape(k.shape)
        return k
    if isinstance(k, list):
        return fix_index1(build(k))
    return k


def concrete_index(y):
    if isinstance(y, SB):
        return bool(y)
    if isinstance(y, SR):
        return y.__index__()
    if isinstance(y, (bool, np.bool_)):
        return bool(y)
    if isinstance(y, (int, np.integer)):
        return int(y)
    raise IndexError("arrays used as indices must be of integer (or boolean) type")


# --------------------------------------------------------------------------- scalar table
def _issym(*a):
    for x in a:
        if isinstance(x, (SR, SB)):
            return True
    return False


def _pyf(x):
    return x


def s_add(a, b):
    if isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        return a or b
    if isinstance(a, SB) and isinstance(b, (SB, bool, np.bool_)):
        return a | b
    return core.binop("add", a, b) if _issym(a, b) else a + b


def s_sub(a, b):
    return core.binop("sub", a, b) if _issym(a, b) else a - b


def s_mul(a, b):
    if isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
        return s_and(a, b)
    return core.binop("mul", a, b) if _issym(a, b) else a * b


def s_div(a, b):
    if _issym(a, b):
        return core.binop("div", a, b)
    a, b = float(a), float(b)
    if b == 0:
        if a == 0 or a != a:
            return NAN
        return math.copysign(INF, a) * math.copysign(1, b)
    return a / b


def s_pow(a, b):
    if _issym(a, b):
        return core.power(a, b)
    try:
        if isinstance(a, float) and a < 0 and float(b) != int(b):
            return NAN
        return core.power(a, b)
    except ZeroDivisionError:
        return INF
    except OverflowError:
        return INF


def s_neg(a):
    if isinstance(a, (bool, np.bool_)):
        raise TypeError("The numpy boolean negative, the `-` operator, is not supported")
    return -a


def s_abs(a):
    return core.sr_abs(a)


def s_sqrt(a):
    if _issym(a):
        return core.sr_sqrt(a)
    a = float(a)
    if a != a or a < 0:
        return NAN
    return math.sqrt(a) if a != INF else INF


def s_sign(a):
    if _issym(a):
        return core.sr_sign(a)
    return NAN if a != a else (1.0 if a > 0 else -1.0 if a < 0 else 0.0)


def _cmp(op, swap, neg=False):
    import operator

    pyop = {"lt": operator.lt, "le": operator.le, "eq": operator.eq, "ne": operator.ne}[op]

    def f(a, b):
        if swap:
            a, b = b, a
        if _issym(a, b):
            if op in ("eq", "ne") and isinstance(a, (SB, bool, np.bool_)) and isinstance(b, (SB, bool, np.bool_)):
                fa, fb = fof(a), fof(b)
                e = core.for_(core.fand(fa, fb), core.fand(core.fnot(fa), core.fnot(fb)))
                return mkb(e if op == "eq" else core.fnot(e))
            return sr_cmp(a, b, op)
        r = pyop(a, b)
        return bool(r) if not isinstance(r, np.ndarray) else r

    return f


def s_and(a, b):
    return mkb(core.fand(fof(a), fof(b)))


def s_or(a, b):
    return mkb(core.for_(fof(a), fof(b)))


def s_xor(a, b):
    fa, fb = fof(a), fof(b)
    return mkb(core.for_(core.fand(fa, core.fnot(fb)), core.fand(core.fnot(fa), fb)))


def s_not(a):
    return mkb(core.fnot(fof(a)))


def isboolish(a):
    return isinstance(a, (SB, bool, np.bool_))


def s_bitand(a, b):
    if isboolish(a) and isboolish(b):
        return s_and(a, b)
    if isinstance(a, SR):
        return a & b
    if isinstance(b, SR):
        return b & a
    return a & b


def s_bitor(a, b):
    if isboolish(a) and isboolish(b):
        return s_or(a, b)
    return a | b


def s_bitxor(a, b):
    if isboolish(a) and isboolish(b):
        return s_xor(a, b)
    return a ^ b


def s_invert(a):
    if isboolish(a):
        return s_not(a)
    return ~a


def s_max(a, b):
    if isboolish(a) and isboolish(b):
        return s_or(a, b)
    return core.sr_min(a, b, mx=True)


def s_min(a, b):
    if isboolish(a) and isboolish(b):
        return s_and(a, b)
    return core.sr_min(a, b)


def s_fmax(a, b):
    return sort2(a, b, nanmax=False)[1]


def s_fmin(a, b):
    return sort2(a, b)[0]


def s_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not _issym(a, b):
        return bool(np.isclose(float(a), float(b), rtol, atol, equal_nan))
    out = []
    rt, at = core.pconst(core.to_fraction(rtol)), core.pconst(core.to_fraction(atol))
    for g, l in core.alts_of(a):
        for h, m in core.alts_of(b):
            gh = core.fand(g, h)
            if gh is False:
                continue
            if isinstance(l, core.Poly) and isinstance(m, core.Poly):
                d = core.padd(l, m, -1)
                fs = []
                if m.is_const():
                    tol = core.padd(at, core.pscale(rt, abs(m.const())))
                    fs.append(core.fand(core.flit(core.padd(d, tol, -1), 3), core.flit(core.padd(d, tol), 6)))
                else:
                    for bits, sg in ((6, 1), (1, -1)):
                        tol = core.padd(at, core.pscale(core.pmul(rt, m), sg))
                        fs.append(core.fand(core.flit(m, bits), core.flit(core.padd(d, tol, -1), 3), core.flit(core.padd(d, tol), 6)))
                out.append(core.fand(gh, core.for_(*fs)))
            elif not isinstance(l, core.Poly) and not isinstance(m, core.Poly):
                if l == m or (equal_nan and l != l and m != m):
                    out.append(gh)
    return mkb(core.for_(*out))


def _cls(what, fn):
    def f(a):
        if isinstance(a, SB):
            return what == "isfinite"
        if isinstance(a, SR):
            return core.sr_classify(a, what)
        return bool(fn(float(a)))

    return f


def s_sin(a):
    return core.sr_trig(a, "sin")


def s_cos(a):
    return core.sr_trig(a, "cos")


def s_floor(a):
    return core.floordiv(a, 1) if _issym(a) else float(math.floor(a))


def s_ceil(a):
    return -core.floordiv(-a, 1) if _issym(a) else float(math.ceil(a))


def s_trunc(a):
    if _issym(a):
        return sr_ite(fof(a >= 0), core.floordiv(a, 1), -core.floordiv(-a, 1))
    return float(math.trunc(a))


def s_rint(a):
    if _issym(a):
        return core.rounded(a)
    return float(round(a))


def s_hypot(a, b):
    return s_sqrt(s_add(s_mul(a, a), s_mul(b, b)))


def s_copysign(a, b):
    x = s_abs(a)
    if _issym(b):
        return sr_ite(fof(b >= 0), x, -x)
    return math.copysign(1, b) * x


def s_fdiv(a, b):
    if _issym(a, b):
        return core.floordiv(a, b)
    return a // b if b else NAN


def s_mod(a, b):
    if _issym(a, b):
        return core.modulo(a, b)
    return a % b if b else NAN


def s_exp(a):
    if _issym(a):
        v = core.concrete_value(a)
        if v is None:
            raise Unsupported("exp of a symbolic value")
        a = v
    return math.exp(a)


def s_log(a):
    if _issym(a):
        v = core.concrete_value(a)
        if v is None:
            raise Unsupported("log of a symbolic value")
        a = v
    return math.log(a) if a > 0 else (-INF if a == 0 else NAN)


S = {
    "add": s_add, "subtract": s_sub, "multiply": s_mul, "divide": s_div, "true_divide": s_div,
    "power": s_pow, "float_power": s_pow, "negative": s_neg, "positive": lambda a: a,
    "absolute": s_abs, "fabs": s_abs, "sqrt": s_sqrt, "square": lambda a: s_mul(a, a), "sign": s_sign,
    "reciprocal": lambda a: s_div(1.0, a),
    "less": _cmp("lt", False), "less_equal": _cmp("le", False), "greater": _cmp("lt", True),
    "greater_equal": _cmp("le", True), "equal": _cmp("eq", False), "not_equal": _cmp("ne", False),
    "logical_and": s_and, "logical_or": s_or, "logical_xor": s_xor, "logical_not": s_not,
    "bitwise_and": s_bitand, "bitwise_or": s_bitor, "bitwise_xor": s_bitxor, "invert": s_invert,
    "maximum": s_max, "minimum": s_min, "fmax": s_fmax, "fmin": s_fmin,
    "isnan": _cls("isnan", math.isnan), "isinf": _cls("isinf", math.isinf), "isfinite": _cls("isfinite", math.isfinite),
    "sin": s_sin, "cos": s_cos, "tan": lambda a: s_div(s_sin(a), s_cos(a)),
    "arccos": core.sr_arccos, "arcsin": core.sr_arcsin, "arctan": core.sr_arctan, "arctan2": core.sr_arctan2,
    "floor": s_floor, "ceil": s_ceil, "trunc": s_trunc, "rint": s_rint, "hypot": s_hypot, "copysign": s_copysign,
    "floor_divide": s_fdiv, "remainder": s_mod, "fmod": s_mod, "exp": s_exp, "log": s_log,
    "deg2rad": lambda a: s_div(s_mul(a, math.pi), 180.0), "radians": lambda a: s_div(s_mul(a, math.pi), 180.0),
    "rad2deg": lambda a: s_div(s_mul(a, 180.0), math.pi), "degrees": lambda a: s_div(s_mul(a, 180.0), math.pi),
    "conjugate": lambda a: a, "heaviside": lambda a, b: where(a < 0, 0.0, where(a > 0, 1.0, b)),
    "signbit": lambda a: S["less"](a, 0), "left_shift": lambda a, b: a << b, "right_shift": lambda a, b: a >> b,
    "log2": lambda a: s_log(a) / math.log(2), "log10": lambda a: s_log(a) / math.log(10),
    "cbrt": lambda a: s_pow(a, Fraction(1, 3)),
}
UF = {k: np.frompyfunc(v, 1 if k in (
    "negative positive absolute fabs sqrt square sign reciprocal logical_not invert isnan isinf isfinite sin cos tan "
    "arccos arcsin arctan floor ceil trunc rint exp log deg2rad radians rad2deg degrees conjugate signbit log2 log10 cbrt").split() else 2, 1)
      for k, v in S.items()}


def cast_element(v, dtype):
    k = np.dtype(dtype).kind
    if k == "b":
        return mkb(fof(v))
    if k in "iu":
        if isinstance(v, SB):
            return v._num()
        if isinstance(v, SR):
            c = core.concrete_value(v)
            if c is not None:
                return int(c)
            if all(isinstance(l, core.Poly) and l.is_const() and l.const().denominator == 1 for _, l in v.alts):
                return v
            return s_trunc(v)
        return int(v)
    if k == "f":
        if isinstance(v, SB):
            return v._num()
        return v if isinstance(v, SR) else float(v)
    return v


def apply_elementwise(name, inputs):
    args = [obj(x) for x in inputs]
    return UF[name](*args)


def native_int(x):
    return isinstance(x, np.ndarray) and x.dtype.kind in "iub"


NATIVE = set(
    "add subtract multiply negative absolute less less_equal greater greater_equal equal not_equal logical_and logical_or "
    "logical_xor logical_not bitwise_and bitwise_or bitwise_xor invert maximum minimum floor_divide remainder left_shift "
    "right_shift".split()
)


def dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop("out", None)
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
    cls = result_class(inputs)
    if name == "matmul":
        if method != "__call__":
            raise Unsupported("matmul." + method)
        r = matmul_(inputs[0], inputs[1])
    elif method == "__call__":
        where_ = kw.pop("where", True)
        if any(native_int(x) for x in inputs) and all(native_int(x) or isinstance(x, (int, bool, np.integer, np.bool_)) for x in inputs) and out is None and where_ is True and name in NATIVE:
            r = getattr(ufunc, method)(*[base(x) for x in inputs])
            if isinstance(r, np.ndarray) and r.dtype.kind == "f":
                r = obj(r)
            return wrap_result(r, cls) if isinstance(r, np.ndarray) else r
        if name == "divmod":
            return S["floor_divide"](*inputs), S["remainder"](*inputs)
        if name not in S:
            nat = [to_native(x) for x in inputs]
            if any(x is None for x in nat):
                raise Unsupported("numpy." + name)
            r = ufunc(*nat)
            r = obj(r) if isinstance(r, np.ndarray) else r
        else:
            r = apply_elementwise(name, inputs)
        if where_ is not True:
            b = out if out is not None else None
            if b is None:
                shape = np.broadcast_shapes(np.shape(r), np.shape(base(where_)))
                b = empty(shape)
            r = base(where(where_, wrap_result(r) if isinstance(r, np.ndarray) else r, b))
    elif method == "reduce":
        axis = kw.pop("axis", 0)
        r = reduce_(name, inputs[0], axis, kw.pop("keepdims", False), kw.get("initial", None))
    elif method == "accumulate":
        r = accumulate(name, inputs[0], kw.pop("axis", inputs[1] if len(inputs) > 1 else 0))
    elif method == "outer":
        a, b = obj(inputs[0]), obj(inputs[1])
        r = UF[name](a.reshape(a.shape + (1,) * b.ndim), b)
    else:
        raise Unsupported(f"numpy.{name}.{method}")
    if out is not None:
        if out.dtype != object:
            nat = to_native(r)
            if nat is None:
                raise Unsupported("symbolic result into a native array")
            out.view(np.ndarray)[...] = nat
        else:
            # the target may be known to hold booleans only
            np.ndarray.__setitem__(out, Ellipsis, base(r) if isinstance(r, np.ndarray) else obj(r))
        return out
    if isinstance(r, np.ndarray):
        if r.ndim == 0:
            return r.item()
        return r.view(cls)
    return r


def matmul_(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if a.shape[-1] != b.shape[-2 if b.ndim > 1 else 0]:
        raise ValueError(f"matmul: Input operand 1 has a mismatch in its core dimension ({a.shape} x {b.shape})")
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None, :]
    if b1:
        b = b[:, None]
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A = np.broadcast_to(a, sh + a.shape[-2:])
    B = np.broadcast_to(b, sh + b.shape[-2:])
    r = np.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for ix in np.ndindex(*sh):
        X, Y = A[ix], B[ix]
        for i in range(X.shape[0]):
            for j in range(Y.shape[1]):
                t = 0.0
                for k in range(X.shape[1]):
                    x, y = X[i, k], Y[k, j]
                    t = s_add(t, s_mul(x, y))
                r[ix + (i, j)] = t
    if b1:
        r = r[..., 0]
    if a1:
        r = r[..., 0, :] if not b1 else r[..., 0]
    return r


def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (int, np.integer)):
        axis = (int(axis),)
    return tuple(a % ndim if -ndim <= a < ndim else _axerr(a, ndim) for a in axis)


def _axerr(a, n):
    raise np.AxisError(a, n)


IDENT = {"add": 0.0, "multiply": 1.0, "logical_or": False, "logical_and": True, "logical_xor": False,
         "bitwise_or": False, "bitwise_and": True}


def reduce_(name, x, axis=None, keepdims=False, initial=None):
    o = obj(x)
    if o.ndim == 0:
        return S[name](IDENT[name], o.item()) if name.startswith("logical") else o.item()
    axes = _axes(axis, o.ndim)
    keep = [i for i in range(o.ndim) if i not in axes]
    n = 1
    for i in axes:
        n *= o.shape[i]
    t = o.transpose(keep + list(axes)).reshape([o.shape[i] for i in keep] + [n])
    r = np.empty(t.shape[:-1], dtype=object)
    f = S[name]
    for ix in np.ndindex(*t.shape[:-1]):
        vals = t[ix]
        if len(vals) == 0:
            if initial is None and name not in IDENT:
                raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            r[ix] = IDENT[name] if initial is None else initial
            continue
        if name in ("logical_or", "logical_and"):
            fs = [fof(v) for v in vals]
            r[ix] = mkb(core.for_(*fs) if name == "logical_or" else core.fand(*fs))
            continue
        acc = vals[0]
        if isboolish(acc) and name == "add":
            acc = acc._num() if isinstance(acc, SB) else int(acc)
        for v in vals[1:]:
            if isboolish(v) and name == "add":
                v = v._num() if isinstance(v, SB) else int(v)
            acc = f(acc, v)
        if initial is not None:
            acc = f(acc, initial)
        r[ix] = acc
    if keepdims:
        r = r.reshape([1 if i in axes else o.shape[i] for i in range(o.ndim)])
    if r.ndim == 0:
        return r.item()
    return r.view(result_class([x]))


def accumulate(name, x, axis=0):
    o = obj(x)
    r = np.empty(o.shape, dtype=object)
    f = S[name]
    om, rm = np.moveaxis(o, axis, 0), np.moveaxis(r, axis, 0)
    for i in range(om.shape[0]):
        if i == 0:
            rm[0] = om[0]
        else:
            a, b = obj(rm[i - 1]), obj(om[i])
            rm[i] = np.frompyfunc(f, 2, 1)(a, b)
    return r.view(result_class([x]))


# --------------------------------------------------------------------------- array functions
OVER = {}
NS = {}


def over(*fns):
    def d(f):
        for x in fns:
            if callable(x):
                OVER[x] = f
        NS[f.__name__.rstrip("_")] = f
        return f

    return d


def array_function(func, args, kw):
    f = OVER.get(func)
    if f is not None:
        return f(*args, **kw)
    return generic(func, args, kw)


def strip(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and type(x) in (list, tuple):
        if any(isinstance(y, (SR, SB)) for y in x):
            return build(x)
        return type(x)(strip(y) for y in x)
    if isinstance(x, (SR, SB)):
        return obj(x)
    return x


def rewrap(r):
    if isinstance(r, np.ndarray):
        if r.dtype.kind == "f":
            r = obj(r)
        return r.view(SymArray)
    if isinstance(r, tuple):
        return tuple(rewrap(x) for x in r)
    if isinstance(r, list):
        return [rewrap(x) for x in r]
    if isinstance(r, np.floating):
        return float(r)
    return r


STRUCTURAL = set(
    "vstack hstack stack concatenate column_stack dstack atleast_1d atleast_2d atleast_3d tile repeat roll reshape transpose "
    "swapaxes moveaxis squeeze expand_dims broadcast_to broadcast_arrays flip fliplr flipud ravel copy split array_split "
    "hsplit vsplit delete insert append take compress diagonal diff pad rollaxis rot90 meshgrid indices ix_ shape ndim size "
    "copyto put_along_axis resize trim_zeros triu tril kron outer".split()
)


def generic(func, args, kw):
    name = getattr(func, "__name__", str(func))
    if name in STRUCTURAL:
        a = strip(list(args))
        k = {x: strip(y) for x, y in kw.items()}
        cls = result_class(flatten(args))
        r = func(*a, **k)
        if isinstance(r, np.ndarray):
            if r.dtype.kind == "f":
                r = obj(r)
            sub_ok = name in ("reshape", "transpose", "squeeze", "swapaxes", "ravel", "copy", "atleast_1d", "atleast_2d", "atleast_3d", "moveaxis")
            return r.view(cls if sub_ok else SymArray)
        return rewrap(r)
    if has_sym(list(args)) or has_sym(list(kw.values())):
        a = strip(list(args))
        k = {x: strip(y) for x, y in kw.items()}
    else:
        a = [to_native(x) if isinstance(x, (np.ndarray, list, tuple, SR)) else x for x in args]
        k = {x: (to_native(y) if isinstance(y, (np.ndarray, list, tuple, SR)) else y) for x, y in kw.items()}
    try:
        return rewrap(func(*a, **k))
    except (Infeasible, Unsupported, core.Inconclusive):
        raise
    except (TypeError, AttributeError) as e:
        if has_sym(list(args)):
            raise Unsupported(f"numpy.{name}: {e}")
        raise


def flatten(x):
    for y in x:
        if isinstance(y, (list, tuple)):
            yield from flatten(y)
        else:
            yield y


def asobj(x):
    return obj(x)


def _mk(shape, v, cls=SymArray):
    o = np.empty(shape if not isinstance(shape, SR) else int(shape), dtype=object)
    if o.ndim == 0:
        o[()] = v
    else:
        o.reshape(-1)[:] = [v] * o.size
    return o.view(cls)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    return int(s)


def _zero(dtype, v):
    k = np.dtype(dtype).kind
    return bool(v) if k == "b" else int(v) if k in "iu" else float(v)


def zeros(shape, dtype=float, order="C", **k):
    return _mk(_shape(shape), _zero(dtype, 0))


def ones(shape, dtype=float, order="C", **k):
    return _mk(_shape(shape), _zero(dtype, 1))


def empty(shape, dtype=float, order="C", **k):
    o = np.empty(_shape(shape), dtype=object)
    flat = o.reshape(-1)
    for i in range(o.size):
        flat[i] = core.havoc()
    return o.view(SymArray)


def full(shape, fill_value, dtype=None, order="C", **k):
    if isinstance(fill_value, np.ndarray) or isinstance(fill_value, (list, tuple)):
        o = np.empty(_shape(shape), dtype=object)
        o[...] = obj(fill_value)
        return o.view(SymArray)
    if dtype is not None:
        fill_value = cast_element(fill_value, dtype)
    return _mk(_shape(shape), fill_value)


@over(np.zeros_like)
def zeros_like(a, dtype=None, *x, **k):
    return zeros(np.shape(base(a)), dtype or float).view(result_class([a]))


@over(np.ones_like)
def ones_like(a, dtype=None, *x, **k):
    return ones(np.shape(base(a)), dtype or float).view(result_class([a]))


@over(np.empty_like)
def empty_like(a, dtype=None, *x, **k):
    return empty(np.shape(base(a))).view(result_class([a]))


@over(np.round)
def around(a, decimals=0, out=None):
    if native_int(a) and decimals >= 0:
        return a
    one = lambda v: core.rounded(v, decimals) if _issym(v) else float(np.round(v, decimals))
    r = np.frompyfunc(one, 1, 1)(obj(a))
    return r.view(result_class([a])) if isinstance(r, np.ndarray) else r


over(np.around)(around)
NS["round"] = around


@over(np.full_like)
def full_like(a, v, dtype=None, *x, **k):
    t = base(a).dtype if isinstance(a, np.ndarray) else np.asarray(a).dtype
    if dtype is None and t.kind in "iub":
        dtype = t  # numpy keeps the type of the model, so the value is cut off
    return full(np.shape(base(a)), v, dtype).view(result_class([a]))


def array(x, dtype=None, copy=True, order="K", subok=False, ndmin=0, **k):
    if isinstance(x, np.ndarray) and x.dtype.kind in "iub" and dtype is None:
        o = x.view(np.ndarray).copy()
    elif isinstance(x, np.ndarray):
        o = obj(x).copy()
    else:
        o = build(x)
    if dtype is not None and np.dtype(dtype) != object:
        o = base(astype(o, dtype))
    while o.ndim < ndmin:
        o = o[None]
    return o.view(result_class([x]) if subok else SymArray)


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, np.ndarray) and dtype is None:
        return obj(x).view(SymArray) if x.dtype.kind == "f" else x.view(SymArray)
    if isinstance(x, np.ndarray) and np.dtype(dtype).kind == "f" and x.dtype == object:
        return x.view(SymArray)
    return array(x, dtype)


def asanyarray(x, dtype=None, *a, **k):
    if isinstance(x, SymArray) and isinstance(x, np.ndarray) and dtype is None:
        return x
    return asarray(x, dtype)


def astype(x, dtype):
    o = obj(x)
    if dtype is object or np.dtype(dtype) == object:
        return o.copy().view(SymArray)
    r = np.frompyfunc(lambda v: cast_element(v, dtype), 1, 1)(o)
    if not isinstance(r, np.ndarray):
        r = obj(r)
    return r.view(result_class([x]))


def _truthy(a):
    return np.frompyfunc(lambda v: v if isboolish(v) else mkb(fof(v)), 1, 1)(obj(a))


def ite_el(c, a, b):
    f = fof(c)
    if f is True:
        return a
    if f is False:
        return b
    if isboolish(a) and isboolish(b):
        fa, fb = fof(a), fof(b)
        if ctx().policy == "fork" and not (fa == fb):
            pass
        return mkb(core.for_(core.fand(f, fa), core.fand(core.fnot(f), fb)))
    return sr_ite(f, a, b)


@over(np.where)
def where(c, *ab):
    if not ab:
        return nonzero(c)
    a, b = ab
    r = np.frompyfunc(ite_el, 3, 1)(obj(c), obj(a), obj(b))
    if not isinstance(r, np.ndarray):
        return obj(r).view(SymArray)
    return r.view(SymArray)


@over(np.select)
def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


@over(np.putmask)
def putmask(a, mask, values):
    a[...] = where(mask, values, a)


@over(np.copyto)
def copyto(dst, src, casting="same_kind", where=True):
    dst[...] = src if where is True else NS["where"](where, src, dst)


@over(np.place)
def place(a, mask, vals):
    a[mask] = vals


@over(np.nan_to_num)
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = 1.7976931348623157e308
    r = where(isnan(x), nan, x)
    r = where(isposinf(r), big if posinf is None else posinf, r)
    r = where(isneginf(r), -big if neginf is None else neginf, r)
    if not copy:
        x[...] = r
        return x
    return r


def _mapf(f, x):
    o = obj(x)
    r = np.frompyfunc(f, 1, 1)(o)
    return r.view(SymArray) if isinstance(r, np.ndarray) else r


def isnan(x):
    return _mapf(S["isnan"], x)


def isposinf(x, out=None):
    return _mapf(_cls("isposinf", lambda v: v == INF), x)


def isneginf(x, out=None):
    return _mapf(_cls("isneginf", lambda v: v == -INF), x)


OVER[np.isposinf] = isposinf
OVER[np.isneginf] = isneginf


@over(np.isreal)
def isreal(x):
    return _mapf(lambda v: True, x)


@over(np.isclose)
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = np.frompyfunc(lambda x, y: s_isclose(x, y, rtol, atol, equal_nan), 2, 1)(obj(a), obj(b))
    return r.view(SymArray) if isinstance(r, np.ndarray) else r


@over(np.allclose)
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all_(isclose(a, b, rtol, atol, equal_nan))


@over(np.array_equal)
def array_equal(a, b, **k):
    a, b = obj(a), obj(b)
    if a.shape != b.shape:
        return False
    return all_(UF["equal"](a, b))


@over(np.any)
def any_(a, axis=None, out=None, keepdims=False, **k):
    return reduce_("logical_or", _arrlike(a), axis, keepdims)


@over(np.all)
def all_(a, axis=None, out=None, keepdims=False, **k):
    return reduce_("logical_and", _arrlike(a), axis, keepdims)


def _arrlike(a):
    return a if isinstance(a, np.ndarray) else obj(a)


@over(np.sum)
def sum_(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_("add", _arrlike(a), axis, keepdims)


@over(np.prod)
def prod(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return reduce_("multiply", _arrlike(a), axis, keepdims)


@over(np.max, np.amax)
def max_(a, axis=None, out=None, keepdims=False, initial=None, **k):
    return reduce_("maximum", _arrlike(a), axis, keepdims, initial)


@over(np.min, np.amin)
def min_(a, axis=None, out=None, keepdims=False, initial=None, **k):
    return reduce_("minimum", _arrlike(a), axis, keepdims, initial)


NS["amax"], NS["amin"] = max_, min_


@over(np.nanmin)
def nanmin(a, axis=None, **k):
    return reduce_("fmin", _arrlike(a), axis)


@over(np.nanmax)
def nanmax(a, axis=None, **k):
    return reduce_("fmax", _arrlike(a), axis)


@over(np.ptp)
def ptp(a, axis=None, **k):
    return max_(a, axis) - min_(a, axis)


@over(np.mean)
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    o = obj(a)
    n = 1
    for i in _axes(axis, o.ndim):
        n *= o.shape[i]
    s = reduce_("add", _arrlike(a), axis, keepdims)
    return s / n if not isinstance(s, (int, float)) else s_div(s, n)


@over(np.average)
def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    w = _arrlike(weights)
    return sum_(asarray(a) * w, axis) / sum_(w, axis)


@over(np.cumsum)
def cumsum(a, axis=None, dtype=None, out=None):
    if isinstance(a, np.ndarray) and a.dtype.kind in "iub":
        return rewrap(np.cumsum(base(a), axis=axis))
    o = _arrlike(a)
    o = obj(o)
    o = np.frompyfunc(lambda v: (v._num() if isinstance(v, SB) else int(v)) if isboolish(v) else v, 1, 1)(o)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    return accumulate("add", o, axis)


@over(np.cumprod)
def cumprod(a, axis=None, dtype=None, out=None):
    o = obj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    return accumulate("multiply", o, axis)


@over(np.clip)
def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.get("min", a_min)
    a_max = k.get("max", a_max)
    r = a
    if a_min is not None:
        r = dispatch(np.maximum, "__call__", (r, a_min), {})
    if a_max is not None:
        r = dispatch(np.minimum, "__call__", (r, a_max), {})
    if out is not None:
        out[...] = r
        return out
    return r


@over(np.count_nonzero)
def count_nonzero(a, axis=None, **k):
    return reduce_("add", _truthy(a).view(SymArray) if np.ndim(base(a)) else a, axis)


@over(np.nonzero)
def nonzero(a):
    m = _truthy(a)
    m = np.frompyfunc(bool, 1, 1)(m).astype(bool)
    return tuple(x.view(SymArray) for x in np.nonzero(m))


@over(np.flatnonzero)
def flatnonzero(a):
    return nonzero(obj(a).reshape(-1))[0]


@over(np.argwhere)
def argwhere(a):
    return np.transpose(np.array([base(x) for x in nonzero(a)])).view(SymArray)


def isnan_el(v):
    return S["isnan"](v)


def sort2(a, b, nanmax=True):
    """(smaller, larger), nan counting as larger than everything"""
    if not _issym(a, b):
        if a != a:
            return (b, a) if nanmax or b != b else (a, b)
        if b != b:
            return (a, b) if nanmax else (b, a)
        return (a, b) if a <= b else (b, a)
    le = S["less_equal"](a, b)
    nb = isnan_el(b)
    c = s_or(le, nb)  # a first
    f = fof(c)
    if f is True:
        return a, b
    if f is False:
        return b, a
    if ctx().policy == "fork":
        return (a, b) if ctx().decide(f) else (b, a)
    if not nanmax and fof(s_or(isnan_el(a), nb)) is not False:
        raise Unsupported("fmax of possible nan")
    return sr_ite(f, a, b), sr_ite(f, b, a)


@over(np.sort)
def sort(a, axis=-1, kind=None, order=None):
    if isinstance(a, np.ndarray) and a.dtype.kind in "iub":
        return rewrap(np.sort(base(a), axis=axis))
    o = obj(a).copy()
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    if o.size == 0:
        return o.view(result_class([a]))
    m = np.moveaxis(o, axis, 0)
    n = m.shape[0]
    for ix in np.ndindex(*m.shape[1:]):
        v = [m[(i,) + ix] for i in range(n)]
        if not _issym(*v):
            v = sorted(v, key=lambda x: (x != x, x if x == x else 0))
        else:
            for i in range(1, n):
                for j in range(i, 0, -1):
                    x, y = sort2(v[j - 1], v[j])
                    if x is v[j - 1] and y is v[j]:
                        break
                    v[j - 1], v[j] = x, y
        for i in range(n):
            m[(i,) + ix] = v[i]
    return o.view(result_class([a]))


def _gt(a, b):
    """a sorts strictly after b"""
    return s_or(S["less"](b, a), s_and(isnan_el(a), s_not(isnan_el(b))))


def _same(a, b):
    """one and the same symbolic term"""
    return isinstance(a, SR) and isinstance(b, SR) and (a is b or (len(a.alts) == len(b.alts) and all(
        g is h and (p is q or p == q) for (g, p), (h, q) in zip(a.alts, b.alts)))) and core.concrete_value(a) is None


def _merged_argsort(v, rm, ix, stable=True):
    """the sorted order as choices: place p holds i when exactly p elements come before v[i]

    An unstable sort may put elements that tie in any order: repeated terms come out reversed."""
    n = len(v)
    before = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            f = fof(_gt(v[i], v[j]))
            if not stable and _same(v[i], v[j]):
                f = core.for_(f, fof(core.sr_classify(v[i], "isfinite")))
            before[j][i] = f
            before[i][j] = core.fnot(f)
    cnt = []
    for i in range(n):
        d = [True] + [False] * n  # d[p]: p of those seen come before v[i]
        for j in range(n):
            if j != i:
                f, nf = before[j][i], before[i][j]
                d = [core.for_(core.fand(d[p], nf), core.fand(d[p - 1], f) if p else False) for p in range(n + 1)]
        cnt.append(d)
    for p in range(n):
        r = n - 1
        for i in reversed(range(n - 1)):
            r = core.sr_ite(cnt[i][p], i, r)
        rm[(p,) + ix] = r


@over(np.argsort)
def argsort(a, axis=-1, kind=None, order=None):
    if isinstance(a, np.ndarray) and a.dtype.kind in "iub":
        return rewrap(np.argsort(base(a), axis=axis, kind="stable"))
    o = obj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    r = np.zeros(o.shape, dtype=np.int64)
    m, rm = np.moveaxis(o, axis, 0), np.moveaxis(r, axis, 0)
    stable = kind in ("stable", "mergesort")
    if ctx().policy == "merge" and 1 < m.shape[0] <= 8 and _issym(*m.reshape(-1)):
        r = np.zeros(o.shape, dtype=object)
        rm = np.moveaxis(r, axis, 0)
        for ix in np.ndindex(*m.shape[1:]):
            _merged_argsort([m[(i,) + ix] for i in range(m.shape[0])], rm, ix, stable)
        return r.view(SymArray)
    for ix in np.ndindex(*m.shape[1:]):
        idx = []
        for i in range(m.shape[0]):
            j = len(idx)
            while j > 0 and (bool(_gt(m[(idx[j - 1],) + ix], m[(i,) + ix]))
                             or (not stable and _same(m[(idx[j - 1],) + ix], m[(i,) + ix]) and bool(core.sr_classify(m[(i,) + ix], "isfinite")))):
                j -= 1
            idx.insert(j, i)
        for i, v in enumerate(idx):
            rm[(i,) + ix] = v
    return r.view(SymArray)


def _argext(a, axis, better):
    o = obj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    m = np.moveaxis(o, axis, 0)
    if m.shape[0] == 0:
        raise ValueError("attempt to get argmin of an empty sequence")
    r = np.zeros(m.shape[1:], dtype=np.int64)
    for ix in np.ndindex(*m.shape[1:]):
        k = 0
        for i in range(1, m.shape[0]):
            cur, new = m[(k,) + ix], m[(i,) + ix]
            f = s_or(better(new, cur), s_and(isnan_el(new), s_not(isnan_el(cur))))
            f = s_and(f, s_not(isnan_el(cur)))
            if bool(f):
                k = i
        r[ix] = k
    return r.view(SymArray) if r.ndim else int(r)


@over(np.argmin)
def argmin(a, axis=None, out=None, **k):
    return _argext(a, axis, lambda n, c: S["less"](n, c))


@over(np.argmax)
def argmax(a, axis=None, out=None, **k):
    return _argext(a, axis, lambda n, c: S["less"](c, n))


@over(np.nanargmin)
def nanargmin(a, axis=None, **k):
    return argmin(where(isnan(a), INF, a), axis)


@over(np.lexsort)
def lexsort(keys, axis=-1):
    raise Unsupported("lexsort")


@over(np.take_along_axis)
def take_along_axis(arr, indices, axis):
    if symbolic_index(indices):
        ind = obj(indices)
        if axis is None:
            return gather(obj(arr).reshape(-1).view(SymArray), (ind,))
        k = [np.arange(n).reshape([-1 if i == j else 1 for j in range(ind.ndim)]) for i, n in enumerate(ind.shape)]
        k[axis] = ind
        return gather(obj(arr).view(SymArray), tuple(k))
    idx = fix_index1(indices)
    r = np.take_along_axis(obj(arr), idx, axis)
    return r.view(SymArray)


@over(np.put_along_axis)
def put_along_axis(arr, indices, values, axis):
    np.put_along_axis(arr.view(np.ndarray), fix_index1(indices), obj(values), axis)


@over(np.take)
def take(a, indices, axis=None, **k):
    if symbolic_index(indices) and (axis is None or axis == 0):
        return gather((obj(a).reshape(-1) if axis is None else obj(a)).view(SymArray), (indices,))
    return rewrap(np.take(obj(a), fix_index1(indices) if isinstance(indices, (np.ndarray, list)) else indices, axis=axis))


@over(np.choose)
def choose(idx, choices, **k):
    i = fix_index1(idx)
    return rewrap(np.choose(i, [obj(c) for c in choices]))


@over(np.compress)
def compress(cond, a, axis=None, **k):
    return rewrap(np.compress(fix_index1(_truthy(cond)), obj(a), axis=axis))


@over(np.extract)
def extract(cond, a):
    return obj(a).reshape(-1)[fix_index1(_truthy(cond).reshape(-1))].view(SymArray)


@over(np.unique)
def unique(a, **k):
    n = to_native(a)
    if n is None:
        raise Unsupported("unique of symbolic values")
    return rewrap(np.unique(n, **k))


@over(np.isin)
def isin(a, test, **k):
    t = list(obj(test).reshape(-1))
    return _mapf(lambda v: mkb(core.for_(*[fof(S["equal"](v, x)) for x in t])), a)


@over(np.dot)
def dot(a, b, out=None):
    a_, b_ = obj(a), obj(b)
    if a_.ndim == 0 or b_.ndim == 0:
        return dispatch(np.multiply, "__call__", (a, b), {})
    if a_.ndim > 2 or b_.ndim > 2:
        raise Unsupported("dot of more than two dimensions")
    r = matmul_(a_, b_)
    if isinstance(r, np.ndarray):
        return r.view(SymArray) if r.ndim else r.item()
    return r


@over(np.vdot, np.inner)
def inner(a, b):
    a_, b_ = obj(a), obj(b)
    if a_.ndim == 1 and b_.ndim == 1:
        return dot(a, b)
    return dot(a_, b_.T)


@over(np.cross)
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    A = np.moveaxis(obj(a), axisa, -1)
    B = np.moveaxis(obj(b), axisb, -1)
    A, B = np.broadcast_arrays(A, B)
    r = np.empty(A.shape, dtype=object)
    sub, mul = UF["subtract"], UF["multiply"]
    for i in range(3):
        j, k = (i + 1) % 3, (i + 2) % 3
        r[..., i] = sub(mul(A[..., j], B[..., k]), mul(A[..., k], B[..., j]))
    return np.moveaxis(r, -1, axisc).view(SymArray)


@over(np.trace)
def trace(a, *x, **k):
    o = obj(a)
    t = 0.0
    for i in range(min(o.shape)):
        t = s_add(t, o[i, i])
    return t


@over(np.einsum)
def einsum(sub, *ops, **k):
    if not isinstance(sub, str):
        raise Unsupported("einsum with index lists")
    sub = sub.replace(" ", "")
    ops = [obj(o) for o in ops]
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins = sub
        ls = sub.replace(",", "").replace("...", "")
        out = ("..." if "..." in sub else "") + "".join(sorted(c for c in set(ls) if ls.count(c) == 1))
    ins = ins.split(",")
    if any("..." in s for s in ins):
        # expand the ellipsis with capital letters
        pool = [c for c in "ABCDEFGHIJKLMNOPQRSTUVWXYZ" if c not in sub]
        nmax = max(o.ndim - len(s.replace("...", "")) for s, o in zip(ins, ops) if "..." in s)
        ell = "".join(pool[:nmax])
        ins = [s.replace("...", ell[len(ell) - (o.ndim - len(s.replace("...", ""))):]) for s, o in zip(ins, ops)]
        out = out.replace("...", ell)
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError(f"einstein sum subscripts string contains wrong number of subscripts for operand ({s}, {o.shape})")
        for c, n in zip(s, o.shape):
            if c in dims and dims[c] != n:
                if 1 in (dims[c], n):
                    n = max(n, dims[c])
                else:
                    raise ValueError("operands could not be broadcast together in einsum")
            dims[c] = n
    summed = [c for c in dims if c not in out]
    r = np.empty([dims[c] for c in out], dtype=object)
    for ox in np.ndindex(*r.shape):
        env = dict(zip(out, ox))
        t = None
        for sx in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, sx))
            p = None
            for s, o in zip(ins, ops):
                v = o[tuple(env[c] if o.shape[d] > 1 else 0 for d, c in enumerate(s))]
                p = v if p is None else s_mul(p, v)
            t = p if t is None else s_add(t, p)
        r[ox] = 0.0 if t is None else t
    if r.ndim == 0:
        return r.item()
    return r.view(SymArray)


@over(np.tensordot)
def tensordot(a, b, axes=2):
    raise Unsupported("tensordot")


@over(np.linalg.norm)
def norm(x, ord=None, axis=None, keepdims=False):
    o = obj(x)
    if ord not in (None, 2, "fro") or (ord == 2 and axis is None and o.ndim > 1):
        if ord == 1:
            return reduce_("add", wrap_result(UF["absolute"](o)), axis, keepdims)
        if ord in (INF,):
            return reduce_("maximum", wrap_result(UF["absolute"](o)), axis, keepdims)
        raise Unsupported(f"norm of order {ord}")
    sq = UF["multiply"](o, o)
    s = reduce_("add", wrap_result(sq), axis, keepdims)
    r = np.frompyfunc(s_sqrt, 1, 1)(obj(s))
    return r.view(SymArray) if isinstance(r, np.ndarray) else r


def _frac(v):
    if isinstance(v, SR):
        v = core.concrete_value(v)
    return core.to_fraction(v)


def det_(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return s_sub(s_mul(M[0][0], M[1][1]), s_mul(M[0][1], M[1][0]))
    t = 0.0
    for j in range(n):
        e = M[0][j]
        if not _issym(e) and e == 0:
            continue
        m = det_([r[:j] + r[j + 1:] for r in M[1:]])
        p = s_mul(e, m)
        t = s_add(t, p) if j % 2 == 0 else s_sub(t, p)
    return t


@over(np.linalg.det)
def det(a):
    o = obj(a)
    if o.ndim != 2:
        raise Unsupported("stacked det")
    return det_([list(r) for r in o])


def _iszero(v):
    if isinstance(v, SR):
        return core.concrete_value(v) == 0
    return v == 0


@over(np.linalg.inv)
def inv(a):
    o = obj(a)
    if o.ndim != 2:
        raise Unsupported("stacked inverse")
    n = o.shape[0]
    M = [[v if isinstance(v, SR) else SR([(True, core.pconst(core.to_fraction(v)))]) for v in r] for r in o]
    if n == 4 and all(_iszero(v) for v in o[3, :3]) and core.concrete_value(M[3][3]) == 1:
        A = [r[:3] for r in M[:3]]
        b = [r[3] for r in M[:3]]
        Ai = inv3(A)
        R = [[0.0] * 4 for _ in range(4)]
        for i in range(3):
            for j in range(3):
                R[i][j] = Ai[i][j]
            t = 0.0
            for j in range(3):
                t = s_add(t, s_mul(Ai[i][j], b[j]))
            R[i][3] = -t
        R[3][3] = 1.0
    else:
        R = inv3(M)
    r = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            r[i, j] = R[i][j]
    return r.view(SymArray)


def inv3(M):
    n = len(M)
    d = det_(M)
    if isinstance(d, SR):
        cv = core.concrete_value(d)
        if cv is not None:
            if cv == 0:
                raise np.linalg.LinAlgError("Singular matrix")
        elif bool(sr_cmp(d, 0, "eq")):
            raise np.linalg.LinAlgError("Singular matrix")
    elif d == 0:
        raise np.linalg.LinAlgError("Singular matrix")
    R = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            minor = [[M[r][c] for c in range(n) if c != i] for r in range(n) if r != j]
            m = det_(minor)
            R[i][j] = s_div(m if (i + j) % 2 == 0 else s_neg(m), d)
    return R


@over(np.linalg.solve)
def solve(a, b):
    return dispatch(np.matmul, "__call__", (inv(a), b), {})


@over(np.linspace)
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if isinstance(start, np.ndarray) or isinstance(stop, np.ndarray):
        raise Unsupported("linspace of arrays")
    div = num - 1 if endpoint else num
    o = np.empty(num, dtype=object)
    step = s_div(s_sub(stop, start), float(div)) if div > 0 else NAN
    for i in range(num):
        if _issym(start, stop):
            o[i] = s_add(start, s_div(s_mul(s_sub(stop, start), i), div)) if div > 0 else start
        else:
            o[i] = float(start) + (i * step if div > 0 else 0.0)
    if endpoint and num > 1:
        o[-1] = stop if _issym(stop) else float(stop)
    r = o.view(SymArray)
    return (r, step) if retstep else r


def arange(*a, **k):
    if has_sym(list(a)):
        a = [core.concrete_value(x) if isinstance(x, SR) else x for x in a]
        if any(x is None for x in a):
            raise Unsupported("arange with a symbolic bound")
    r = np.arange(*a, **{x: y for x, y in k.items()})
    return rewrap(r)


def identity(n, dtype=float):
    return eye(n)


def eye(n, m=None, k=0, dtype=float, **kw):
    return obj(np.eye(n, m, k)).view(SymArray)


@over(np.diag)
def diag(v, k=0):
    return rewrap(np.diag(_diagbase(v), k))


def _diagbase(v):
    o = obj(v)
    if o.ndim == 1 and o.size:
        return _Diag(o)
    return o


class _Diag:
    def __new__(cls, o):
        # np.diag uses zeros(dtype=object) -> int 0, fine
        return o


@over(np.fill_diagonal)
def fill_diagonal(a, v, wrap=False):
    np.fill_diagonal(a.view(np.ndarray), obj(v) if isinstance(v, np.ndarray) else v)


@over(np.ndim)
def ndim(a):
    return 0 if isinstance(a, (SR, SB)) else np.ndim(base(a)) if not isinstance(a, (list, tuple)) else build(a).ndim


@over(np.shape)
def shape(a):
    return () if isinstance(a, (SR, SB)) else np.shape(base(a)) if not isinstance(a, (list, tuple)) else build(a).shape


@over(np.interp)
def interp(x, xp, fp, left=None, right=None, period=None):
    """piecewise linear, xp increasing"""
    xs, ys = list(obj(xp)), list(obj(fp))
    lo = ys[0] if left is None else left
    hi = ys[-1] if right is None else right

    def f(v):
        r = hi
        for i in range(len(xs) - 2, -1, -1):
            seg = ys[i] + s_div(s_mul(s_sub(ys[i + 1], ys[i]), s_sub(v, xs[i])), s_sub(xs[i + 1], xs[i]))
            r = ite_el(S["less_equal"](v, xs[i + 1]), seg, r)
        return ite_el(S["less"](v, xs[0]), lo, r)

    return _mapf(f, x)


@over(np.piecewise)
def piecewise(x, condlist, funclist, *args, **kw):
    funcs = list(funclist)
    r = 0.0
    if len(funcs) == len(condlist) + 1:
        r = funcs.pop()
        r = r(x, *args, **kw) if callable(r) else r
    for c, f in zip(condlist, funcs):
        r = where(c, f(x, *args, **kw) if callable(f) else f, r)
    return r


@over(np.vectorize)
def vectorize(f, *a, **k):
    def g(*args):
        r = np.frompyfunc(f, len(args), 1)(*[obj(x) for x in args])
        return r.view(SymArray) if isinstance(r, np.ndarray) else r

    return g


@over(np.apply_along_axis)
def apply_along_axis(f, axis, arr, *args, **kw):
    m = np.moveaxis(obj(arr), axis, -1)
    outs = [f(m[ix].view(SymArray), *args, **kw) for ix in np.ndindex(*m.shape[:-1])]
    o = build(outs)
    r = o.reshape(m.shape[:-1] + o.shape[1:])
    return (np.moveaxis(r, -1, axis) if o.ndim > 1 else r).view(SymArray)


@over(np.iscomplexobj)
def iscomplexobj(x):
    return False


@over(np.result_type)
def result_type(*a):
    return np.dtype(float)


@over(np.diff)
def diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    kw = {}
    if prepend is not np._NoValue:
        kw["prepend"] = base(prepend)
    if append is not np._NoValue:
        kw["append"] = base(append)
    return rewrap(np.diff(obj(a), n=n, axis=axis, **kw))


def fromiter(it, dtype=float, count=-1, **k):
    return build(list(it)).view(SymArray)


def frompyfunc(f, nin, nout):
    g = np.frompyfunc(f, nin, nout)

    def h(*a):
        r = g(*[obj(x) for x in a])
        return rewrap(r)

    return h


def ascontiguousarray(a, dtype=None):
    return asarray(a, dtype)


def float_power(a, b):
    return dispatch(np.power, "__call__", (a, b), {})


# --------------------------------------------------------------------------- random
class Random:
    """every draw is a fresh symbol within the documented range of the generator"""

    def _draw(self, size, lo, hi, kind):
        c = ctx()
        sh = () if size is None else (size if isinstance(size, (tuple, list)) else (size,))
        sh = tuple(int(x) for x in sh)
        o = np.empty(sh, dtype=object)
        flat = [core.fresh(f"rand{len(c.rand) + i}", lo, hi) for i in range(int(np.prod(sh)) if sh else 1)]
        for v in flat:
            if hi is not None:
                c.assume(fof(v < hi))
            c.rand.append(v.alts[0][1])
        if not sh:
            return flat[0]
        o.reshape(-1)[:] = flat
        return o.view(SymArray)

    def random_sample(self, size=None):
        return self._draw(size, 0, 1, "u")

    random = ranf = sample = random_sample

    def rand(self, *shape):
        return self._draw(shape or None, 0, 1, "u")

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (isinstance(low, np.ndarray) or isinstance(high, np.ndarray)):
            size = np.broadcast_shapes(np.shape(base(low)), np.shape(base(high)))
        return s_any(low, high, self._draw(size, 0, 1, "u"))

    def default_rng(self, *a, **k):
        return self

    def RandomState(self, *a, **k):
        return self

    def seed(self, *a, **k):
        pass

    def get_state(self, *a, **k):
        return ()

    def set_state(self, *a, **k):
        pass

    def __getattr__(self, n):
        raise Unsupported("numpy.random." + n)


def s_any(low, high, u):
    return u * (high - low) + low


random_ns = Random()


# --------------------------------------------------------------------------- the module object
class ShimUfunc:
    """np.<ufunc> as seen by the repository: callable plus .reduce/.accumulate/.outer"""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__
        self.nin = uf.nin

    def __call__(self, *args, out=None, where=True, **kw):
        args = list(args)
        if len(args) > self._uf.nin:
            out = args[self._uf.nin]
            args = args[: self._uf.nin]
        args = [build(a) if isinstance(a, (list, tuple)) else a for a in args]
        args = [build(a.to_numpy()) if hasattr(a, "to_numpy") else a for a in args]
        k = {}
        if out is not None:
            k["out"] = out
        if where is not True:
            k["where"] = where
        r = dispatch(self._uf, "__call__", tuple(args), k)
        return r

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
        a = build(a) if isinstance(a, (list, tuple)) else a
        kw = {"axis": axis, "keepdims": keepdims}
        if initial is not None:
            kw["initial"] = initial
        return dispatch(self._uf, "reduce", (a,), kw)

    def accumulate(self, a, axis=0, **k):
        return dispatch(self._uf, "accumulate", (a,), {"axis": axis})

    def outer(self, a, b, **k):
        return dispatch(self._uf, "outer", (a, b), {})

    def at(self, *a):
        raise Unsupported("ufunc.at")


class ErrState:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class LinAlg(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def __init__(self):
        super().__init__("numpy.linalg")
        self.norm, self.inv, self.det, self.solve = norm, inv, det, solve

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return wrapfn(getattr(np.linalg, n))


def wrapfn(f):
    if f in OVER:
        return OVER[f]

    def g(*a, **k):
        return generic(f, a, k)

    g.__name__ = getattr(f, "__name__", "f")
    return g


class ShimModule(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d.update(NS)
        for n in ("zeros", "ones", "empty", "full", "array", "asarray", "asanyarray", "arange", "identity", "eye",
                  "isposinf", "isneginf", "fromiter", "frompyfunc", "ascontiguousarray"):
            d[n] = globals()[n]
        d["any"], d["all"], d["sum"], d["max"], d["min"] = any_, all_, sum_, max_, min_
        d["ndarray"] = SymArray
        d["linalg"] = LinAlg()
        d["random"] = random_ns
        d["errstate"] = ErrState
        d["seterr"] = lambda **k: {}
        d["abs"] = d["absolute"] = ShimUfunc(np.absolute)
        d["__path__"] = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = getattr(np, n)
        if isinstance(v, np.ufunc):
            r = ShimUfunc(v)
        elif isinstance(v, type) or not callable(v) or isinstance(v, types.ModuleType):
            r = v
        else:
            r = wrapfn(v)
        self.__dict__[n] = r
        return r


npshim = ShimModule()


# --------------------------------------------------------------------------- math
class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        d = self.__dict__
        for n, k in (("sqrt", "sqrt"), ("sin", "sin"), ("cos", "cos"), ("tan", "tan"), ("acos", "arccos"),
                     ("asin", "arcsin"), ("atan", "arctan"), ("atan2", "arctan2"), ("fabs", "absolute"),
                     ("isnan", "isnan"), ("isinf", "isinf"), ("isfinite", "isfinite"), ("copysign", "copysign"),
                     ("radians", "radians"), ("degrees", "degrees"), ("pow", "power")):
            d[n] = self._mk(n, k)
        d["hypot"] = lambda *a: s_sqrt(_fold([s_mul(x, x) for x in a]))
        d["isclose"] = self._isclose
        d["floor"] = lambda x: core.floordiv(x, 1) if _issym(x) else math.floor(x)
        d["ceil"] = lambda x: -core.floordiv(-x, 1) if _issym(x) else math.ceil(x)

    @staticmethod
    def _isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if not _issym(a, b):
            return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        d = s_abs(s_sub(a, b))
        m = s_max(s_mul(s_max(s_abs(a), s_abs(b)), rel_tol), abs_tol)
        return S["less_equal"](d, m)

    @staticmethod
    def _mk(n, k):
        real = getattr(math, n)

        def f(*a):
            a = [x.item() if isinstance(x, np.ndarray) else x for x in a]
            if _issym(*a):
                return S[k](*a)
            if n in ("sin", "cos"):
                return core.const_trig(float(a[0]), n)
            return real(*a)

        return f

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(math, n)


def _fold(xs):
    t = xs[0]
    for x in xs[1:]:
        t = s_add(t, x)
    return t


mathshim = MathShim()
