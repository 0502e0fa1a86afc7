"""Executable semantics of the tensor library over exact symbolic scalars.

A SymTensor is a numpy object array (same view/aliasing behaviour as torch for the operations used) whose
entries are real terms, integers or (symbolic) booleans, with a torch dtype tag.  Anything that is not
modelled raises Unsupported, which makes the obligation undecided and never a violation.
"""
import copy
import itertools
import math as _math
import os
import tempfile
import types
from fractions import Fraction
import numpy as np
import torch as rt
from . import terms as tm
from .terms import T, SB, Unsupported, lift, ZERO, ONE, NAN

_default = [rt.float32]
FLOATS = {rt.float32, rt.float64, rt.float16, rt.bfloat16}
INTS = {rt.int64, rt.int32, rt.int16, rt.int8, rt.uint8}
ASSUME = [None]       # installed by the engine: function(SB)


def obj(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    r = np.empty((), object)
    r[()] = x
    return r


def cdt(dt):
    """Python classes (and their stand-ins) given as dtypes."""
    if dt is None or isinstance(dt, rt.dtype):
        return dt
    if dt == bool:
        return rt.bool
    if dt == int:
        return rt.int64
    if dt == float:
        return rt.float64
    return dt


def cat_of(dt):
    dt = cdt(dt)
    return 2 if dt in FLOATS else 1 if dt in INTS else 0 if dt == rt.bool else 3


def conv(x, dt):
    """Scalar conversion to a dtype category."""
    c = cat_of(dt)
    if c == 2:
        if isinstance(x, T):
            return x
        r = lift(x)
        if r is None:
            raise Unsupported('scalar %r' % type(x))
        return r
    if c == 1:
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, (int, np.integer)):
            return int(x)
        if isinstance(x, float):
            return int(x)
        if isinstance(x, T):
            if x.is_const():
                return int(x.const())
            return x
        if isinstance(x, SB):
            return tm.ite(x, ONE, ZERO)
    if c == 0:
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, SB):
            return x
        if isinstance(x, (int, float, np.integer, np.floating)):
            return bool(x)
        if isinstance(x, T):
            if x.k == 'nan':
                return True
            if x.k == 'ite' and x.args[1] is ONE and x.args[2] is ZERO:
                return x.args[0]
            return tm.b_not(tm.atom('==', x))
    raise Unsupported('conversion to %s' % dt)


def convarr(a, dt):
    out = np.empty(a.shape, object)
    it = np.nditer(a, flags=['multi_index', 'refs_ok', 'zerosize_ok'])
    if a.shape == ():
        out[()] = conv(a[()], dt)
        return out
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.shape[0]):
        of[i] = conv(af[i], dt)
    return out


_rtc = {}


def result_dt(args):
    key = tuple((x.dt, x.a.ndim > 0) if isinstance(x, SymTensor) else
                ('s', 0 if isinstance(x, (bool, np.bool_, SB)) else 1 if isinstance(x, (int, np.integer)) else 2)
                for x in args) + (_default[0],)
    r = _rtc.get(key)
    if r is None:
        real = []
        for k in key[:-1]:
            if k[0] == 's':
                real.append((True, 1, 1.0)[k[1]])
            else:
                real.append(rt.zeros([1] if k[1] else [], dtype=k[0]))
        old = rt.get_default_dtype()
        rt.set_default_dtype(_default[0])
        try:
            r = real[0].dtype if len(real) == 1 else rt.result_type(real[0], real[1])
            for x in real[2:]:
                r = rt.result_type(rt.zeros([1], dtype=r), x)
        finally:
            rt.set_default_dtype(old)
        _rtc[key] = r
    return r


def raw(x):
    if isinstance(x, SymTensor):
        return x.a
    return obj(x)


def _b(x):
    """entry -> bool or SB"""
    if isinstance(x, (bool, SB)):
        return x
    return conv(x, rt.bool)


def _num(x):
    if isinstance(x, (T, int)) and not isinstance(x, bool):
        return x
    if isinstance(x, bool):
        return int(x)
    return lift(x)


def uf(f, n=2):
    g = np.frompyfunc(f, n, 1)

    def h(*xs):
        r = g(*xs)
        return r if isinstance(r, np.ndarray) else obj(r)
    return h


def _div(a, b):
    a, b = lift(a), lift(b)
    if b.k == 'q' and b.args[0] == 0:
        if a.k == 'nan' or (a.k == 'q' and a.args[0] == 0):
            return NAN
        raise Unsupported('division by zero')
    return a / b


def _floordiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    raise Unsupported('floor division')


def _pow(a, b):
    a = lift(a)
    return tm.power(a, b)


ADD = uf(lambda a, b: _num(a) + _num(b))
SUB = uf(lambda a, b: _num(a) - _num(b))
MUL = uf(lambda a, b: _num(a) * _num(b))
DIV = uf(_div)
POW = uf(_pow)
FDIV = uf(_floordiv)
MOD = uf(lambda a, b: a % b if isinstance(a, int) and isinstance(b, int) else _uns('remainder'))
LT = uf(lambda a, b: _num(a) < _num(b))
LE = uf(lambda a, b: _num(a) <= _num(b))
GT = uf(lambda a, b: _num(a) > _num(b))
GE = uf(lambda a, b: _num(a) >= _num(b))
EQ = uf(lambda a, b: _eq(a, b))
NE = uf(lambda a, b: _neg(_eq(a, b)))
AND = uf(lambda a, b: tm.b_and(_b(a), _b(b)))
OR = uf(lambda a, b: tm.b_or(_b(a), _b(b)))
NOT = uf(lambda a: tm.b_not(_b(a)), 1)
MAX = uf(lambda a, b: max(a, b) if isinstance(a, int) and isinstance(b, int) else tm.t_max(a, b))
MIN = uf(lambda a, b: min(a, b) if isinstance(a, int) and isinstance(b, int) else tm.t_min(a, b))
ABS = uf(lambda a: abs(_num(a)), 1)


def _uns(m):
    raise Unsupported(m)


def _eq(a, b):
    if isinstance(a, (bool, SB)) and isinstance(b, (bool, SB)):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return a == b if isinstance(a, SB) else b == a
    a, b = _num(a), _num(b)
    return a == b


def _neg(x):
    return tm.b_not(x)


class Size(tuple):
    def numel(self):
        n = 1
        for x in self:
            n *= x
        return n


class _Meta(type):
    def __getattr__(cls, name):
        raise Unsupported('Tensor.' + name)


class SymTensor(metaclass=_Meta):
    __array_priority__ = 10000
    __array_ufunc__ = None
    requires_grad = False
    grad = None

    def __init__(self, a, dt=None):
        self.a = a if isinstance(a, np.ndarray) else obj(a)
        self.dt = cdt(dt) or _default[0]

    # -------- attributes
    @property
    def shape(self):
        return Size(self.a.shape)

    @property
    def dtype(self):
        return self.dt

    @property
    def device(self):
        return rt.device('cpu')

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def T(self):
        return SymTensor(self.a.T, self.dt)

    @property
    def mT(self):
        return SymTensor(np.swapaxes(self.a, -1, -2), self.dt)

    @property
    def data(self):
        return SymTensor(self.a, self.dt)

    @data.setter
    def data(self, v):
        self.a = v.a
        self.dt = v.dt

    @property
    def is_cuda(self):
        return False

    def __getattr__(self, name):
        raise Unsupported('Tensor.' + name)

    def __hash__(self):
        return id(self)

    def __reduce__(self):
        raise Unsupported('pickle')

    def __deepcopy__(self, memo):
        r = type(self)(self.a.copy(), self.dt)
        r.requires_grad = self.requires_grad
        return r

    def __copy__(self):
        return SymTensor(self.a, self.dt)

    def __repr__(self):
        return 'SymTensor(%s)' % (self.a,)

    def __format__(self, spec):
        return format(self.a[()], spec) if self.a.ndim == 0 and spec else repr(self)

    def __len__(self):
        if self.a.ndim == 0:
            raise TypeError('len() of a 0-d tensor')
        return self.a.shape[0]

    def __iter__(self):
        for i in range(self.a.shape[0]):
            yield self[i]

    def __contains__(self, x):
        return bool(tany(SymTensor(EQ(self.a, raw(x)), rt.bool)))

    def __bool__(self):
        if self.a.size != 1:
            raise RuntimeError('Boolean value of Tensor with more than one value is ambiguous')
        x = self.a.reshape(-1)[0]
        x = _b(x)
        return bool(x)

    def __index__(self):
        return self.item().__index__()

    def __int__(self):
        x = self.item()
        return int(x)

    def __float__(self):
        return float(self.item())

    def item(self):
        if self.a.size != 1:
            raise RuntimeError('a Tensor with %d elements cannot be converted to Scalar' % self.a.size)
        return self.a.reshape(-1)[0]

    def tolist(self):
        return self.a.tolist()

    def numpy(self):
        return self.a

    # -------- arithmetic
    def _bin(self, o, f, rev=False, div=False, cmp=False):
        if isinstance(o, np.ndarray):
            raise Unsupported('tensor with numpy array')
        if not isinstance(o, (SymTensor, int, float, bool, T, SB, np.number, np.bool_)):
            return NotImplemented
        dt = result_dt((self, o))
        if div and cat_of(dt) < 2:
            dt = _default[0]
        x, y = (raw(o), self.a) if rev else (self.a, raw(o))
        if cmp:
            return SymTensor(f(x, y), rt.bool)
        r = f(x, y)
        if cat_of(dt) == 2:
            r = _lift_arr(r)
        return SymTensor(r, dt)

    def __add__(self, o):
        return self._bin(o, ADD)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, SUB)

    def __rsub__(self, o):
        return self._bin(o, SUB, rev=True)

    def __mul__(self, o):
        return self._bin(o, MUL)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, DIV, div=True)

    def __rtruediv__(self, o):
        return self._bin(o, DIV, rev=True, div=True)

    def __floordiv__(self, o):
        return self._bin(o, FDIV)

    def __mod__(self, o):
        return self._bin(o, MOD)

    def __pow__(self, o):
        return self._bin(o, POW)

    def __rpow__(self, o):
        return self._bin(o, POW, rev=True)

    def __neg__(self):
        return SymTensor(MUL(self.a, obj(-1)), self.dt)

    def __pos__(self):
        return self

    def __abs__(self):
        return SymTensor(ABS(self.a), self.dt)

    def __matmul__(self, o):
        return matmul(self, o)

    def __lt__(self, o):
        return self._bin(o, LT, cmp=True)

    def __le__(self, o):
        return self._bin(o, LE, cmp=True)

    def __gt__(self, o):
        return self._bin(o, GT, cmp=True)

    def __ge__(self, o):
        return self._bin(o, GE, cmp=True)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._bin(o, EQ, cmp=True)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._bin(o, NE, cmp=True)

    def __and__(self, o):
        return self._bin(o, AND, cmp=True)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, OR, cmp=True)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, NE, cmp=True)

    def __invert__(self):
        return SymTensor(NOT(self.a), rt.bool)

    # -------- in place
    def _set(self, o, f):
        v = f(self.a, raw(o))
        if cat_of(self.dt) == 2:
            v = _lift_arr(v)
        if v.shape != self.a.shape:
            raise RuntimeError('output shape mismatch in in-place operation')
        if not self.a.flags.writeable:
            raise RuntimeError('in-place on an expanded tensor')
        self.a[...] = v
        return self

    def __iadd__(self, o):
        return self._set(o, ADD)

    def __isub__(self, o):
        return self._set(o, SUB)

    def __imul__(self, o):
        return self._set(o, MUL)

    def __itruediv__(self, o):
        return self._set(o, DIV)

    add_ = __iadd__
    sub_ = __isub__
    mul_ = __imul__
    div_ = __itruediv__

    def copy_(self, o):
        self.a[...] = convarr(raw(o), self.dt)
        return self

    def zero_(self):
        self.a[...] = conv(0, self.dt)
        return self

    def fill_(self, v):
        self.a[...] = conv(v.item() if isinstance(v, SymTensor) else v, self.dt)
        return self

    def clamp_(self, min=None, max=None):
        self.a[...] = clamp(self, min, max).a
        return self

    def scatter_(self, dim, index, src=None, value=None):
        ia = index.a
        for pos in np.ndindex(*ia.shape):
            p = list(pos)
            p[dim] = int(ia[pos])
            v = value if value is not None else (src.a[pos] if isinstance(src, SymTensor) else src)
            self.a[tuple(p)] = conv(v, self.dt)
        return self

    def scatter_add_(self, dim, index, src):
        ia = index.a
        for pos in np.ndindex(*ia.shape):
            p = list(pos)
            p[dim] = int(ia[pos])
            self.a[tuple(p)] = _num(self.a[tuple(p)]) + _num(src.a[pos])
        return self

    def index_add_(self, dim, index, source, alpha=1):
        ids = [int(x) for x in index.a.reshape(-1)]
        for j, i in enumerate(ids):
            s1 = [slice(None)] * self.a.ndim
            s1[dim] = i
            s2 = [slice(None)] * source.a.ndim
            s2[dim] = j
            self.a[tuple(s1)] = ADD(self.a[tuple(s1)], MUL(source.a[tuple(s2)], obj(alpha)))
        return self

    def index_add(self, dim, index, source, alpha=1):
        return self.clone().index_add_(dim, index, source, alpha=alpha)

    def scatter_add(self, dim, index, src):
        return self.clone().scatter_add_(dim, index, src)

    def scatter(self, dim, index, src=None, value=None):
        return self.clone().scatter_(dim, index, src, value)

    def index_put_(self, indices, values, accumulate=False):
        idx = tuple(_key(i) for i in indices)
        if accumulate:
            raise Unsupported('index_put_ accumulate')
        self.a[idx] = convarr(raw(values), self.dt)
        return self

    def masked_fill(self, mask, v):
        return where(mask, SymTensor(obj(conv(v, self.dt)), self.dt), self)

    # -------- indexing
    def __getitem__(self, k):
        r = self.a[_key(k)]
        return SymTensor(r if isinstance(r, np.ndarray) else obj(r), self.dt)

    def __setitem__(self, k, v):
        key = _key(k)
        if isinstance(v, np.ndarray):
            raise Unsupported('numpy into tensor')
        va = raw(v)
        va = convarr(va, self.dt)
        tgt = self.a[key]
        if isinstance(tgt, np.ndarray):
            va2 = va
            # torch allows leading singleton dims in the value
            while va2.ndim > tgt.ndim and va2.shape[0] == 1:
                va2 = va2[0]
            try:
                va2 = np.broadcast_to(va2, tgt.shape)
            except ValueError:
                raise RuntimeError('shape mismatch in assignment')
            self.a[key] = va2
        else:
            if va.size != 1:
                raise RuntimeError('shape mismatch in assignment')
            self.a[key] = va.reshape(-1)[0]

    # -------- shape
    def size(self, d=None):
        return self.shape if d is None else self.a.shape[d]

    def dim(self):
        return self.a.ndim

    def numel(self):
        return self.a.size

    def nelement(self):
        return self.a.size

    def view(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return SymTensor(self.a.reshape(s), self.dt)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return SymTensor(self.a.reshape(s), self.dt)

    def view_as(self, o):
        return self.view(o.shape)

    def flatten(self, start_dim=0, end_dim=-1):
        n = self.a.ndim
        if n == 0:
            return SymTensor(self.a.reshape(1), self.dt)
        e = end_dim % n
        s = start_dim % n
        return SymTensor(self.a.reshape(self.a.shape[:s] + (-1,) + self.a.shape[e + 1:]), self.dt)

    def ravel(self):
        return SymTensor(self.a.reshape(-1), self.dt)

    def t(self):
        return SymTensor(self.a.T, self.dt)

    def transpose(self, i, j):
        return SymTensor(np.swapaxes(self.a, i, j), self.dt)

    def permute(self, *d):
        if len(d) == 1 and isinstance(d[0], (tuple, list)):
            d = tuple(d[0])
        return SymTensor(np.transpose(self.a, d), self.dt)

    def unsqueeze(self, d):
        if d < 0:
            d = self.a.ndim + 1 + d
        return SymTensor(np.expand_dims(self.a, d), self.dt)

    def squeeze(self, d=None, dim=None):
        d = dim if d is None else d
        if d is None:
            return SymTensor(obj(np.squeeze(self.a)), self.dt)
        if self.a.shape[d] != 1:
            return SymTensor(self.a, self.dt)
        return SymTensor(obj(np.squeeze(self.a, axis=d)), self.dt)

    def expand(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        off = len(s) - self.a.ndim
        s = tuple(self.a.shape[i - off] if x == -1 else x for i, x in enumerate(s))
        return SymTensor(np.broadcast_to(self.a, s), self.dt)

    def expand_as(self, o):
        return self.expand(o.shape)

    def repeat(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return SymTensor(np.tile(self.a, s), self.dt)

    def tile(self, *s):
        return self.repeat(*s)

    def repeat_interleave(self, n, dim=None):
        if isinstance(n, SymTensor):
            n = [int(x) for x in n.a.reshape(-1)] if n.a.ndim else int(n)
        return SymTensor(np.repeat(self.a, n, axis=dim), self.dt)

    def contiguous(self):
        return self

    def chunk(self, n, dim=0):
        return chunk(self, n, dim)

    def split(self, n, dim=0):
        return split(self, n, dim)

    def unbind(self, dim=0):
        return tuple(SymTensor(obj(np.take(self.a, i, axis=dim)), self.dt) for i in range(self.a.shape[dim]))

    def gather(self, dim, index):
        return gather(self, dim, index)

    def index_select(self, dim, index):
        return SymTensor(np.take(self.a, [int(x) for x in index.a.reshape(-1)], axis=dim), self.dt)

    def nonzero(self, as_tuple=False):
        m = np.vectorize(lambda x: bool(_b(x)), otypes=[bool])(self.a)
        idx = np.argwhere(m)
        if as_tuple:
            return tuple(SymTensor(_intobj(idx[:, i]), rt.int64) for i in range(idx.shape[1]))
        return SymTensor(_intobj(idx), rt.int64)

    # -------- conversion
    def to(self, *args, **kw):
        dt = kw.get('dtype')
        for x in args:
            if isinstance(x, rt.dtype):
                dt = x
            elif isinstance(x, type) and not isinstance(cdt(x), type):
                dt = cdt(x)
            elif isinstance(x, SymTensor):
                dt = x.dt
        if dt is None or dt == self.dt:
            return self.clone() if kw.get('copy') else self
        return SymTensor(convarr(self.a, dt), dt)

    def type(self, dt=None):
        return self.to(dt)

    def float(self):
        return self.to(rt.float32)

    def double(self):
        return self.to(rt.float64)

    def bool(self):
        return self.to(rt.bool)

    def int(self):
        return self.to(rt.int32)

    def long(self):
        return self.to(rt.int64)

    def cpu(self):
        return self

    def detach(self):
        return SymTensor(self.a, self.dt)

    def detach_(self):
        return self

    def requires_grad_(self, f=True):
        self.requires_grad = f
        return self

    def clone(self, *a, **k):
        return SymTensor(self.a.copy(), self.dt)

    def new_zeros(self, *s, **k):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return _full(s, 0, k.get('dtype') or self.dt)

    def is_floating_point(self):
        return self.dt in FLOATS

    def backward(self, *a, **k):
        raise Unsupported('backward')

    def apply_(self, f):
        raise Unsupported('apply_')


def _key(k):
    if isinstance(k, tuple):
        return tuple(_key1(x) for x in k)
    if isinstance(k, list) and any(isinstance(v, (list, tuple, slice, SymTensor)) or v is None for v in k):
        return tuple(_key1(list(x) if isinstance(x, tuple) else x) for x in k)   # torch reads it as a tuple
    return _key1(k)


def _key1(x):
    if isinstance(x, SymTensor):
        if x.dt == rt.bool:
            if x.a.ndim == 0:
                return bool(x)
            return np.vectorize(lambda v: bool(v), otypes=[bool])(x.a) if x.a.size else np.zeros(x.a.shape, bool)
        if x.a.ndim == 0:
            return int(x.item())
        return np.array([int(v) for v in x.a.reshape(-1)], dtype=int).reshape(x.a.shape)
    if isinstance(x, T):
        return x.__index__()
    if isinstance(x, list):
        if all(isinstance(v, slice) or v is None for v in x):
            return tuple(x)
        return [_key1(v) for v in x]
    if isinstance(x, slice):
        f = lambda v: None if v is None else (v.__index__())
        return slice(f(x.start), f(x.stop), f(x.step))
    if isinstance(x, range):
        return list(x)
    return x


def _intobj(a):
    out = np.empty(a.shape, object)
    for p in np.ndindex(*a.shape):
        out[p] = int(a[p])
    return out


def _lift_arr(a):
    if a.shape == ():
        x = a[()]
        return a if isinstance(x, T) else obj(lift(x))
    out = a if a.flags.writeable else a.copy()
    f = out.reshape(-1)
    for i in range(f.shape[0]):
        if not isinstance(f[i], T):
            f[i] = lift(f[i])
    return f.reshape(out.shape)


Tensor = SymTensor


# ------------------------------------------------------------------------------------------ creation
def _infer(x):
    """(object array, category) of nested data."""
    if isinstance(x, SymTensor):
        return x.a.copy(), x.dt
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            cat = 0
            for v in x.reshape(-1):
                c = _cat_scalar(v)
                cat = max(cat, c)
            return x.copy(), cat
        if x.dtype == bool:
            o = np.empty(x.shape, object)
            o[...] = x.tolist() if x.shape else bool(x)
            return o, 0
        o = np.empty(x.shape, object)
        if x.shape:
            f = o.reshape(-1)
            for i, v in enumerate(x.reshape(-1).tolist()):
                f[i] = v
            o = f.reshape(x.shape)
        else:
            o[()] = x.item()
        return o, (1 if np.issubdtype(x.dtype, np.integer) else 2)
    if isinstance(x, (list, tuple)):
        if not x:
            return np.empty((0,), object), 2
        parts = [_infer(v) for v in x]
        cat = None
        for _, c in parts:
            c = cat_of(c) if isinstance(c, rt.dtype) else c
            cat = c if cat is None else max(cat, c)
        out = np.empty((len(parts),) + parts[0][0].shape, object)
        for i, (p, _) in enumerate(parts):
            if p.shape != parts[0][0].shape:
                raise ValueError('ragged nested data')
            out[i] = p[()] if p.shape == () else p
        return out, cat
    return obj(x), _cat_scalar(x)


def _cat_scalar(v):
    if isinstance(v, (bool, np.bool_, SB)):
        return 0
    if isinstance(v, (int, np.integer)):
        return 1
    if isinstance(v, (float, T, np.floating)) or type(v).__name__ == 'Fraction':
        return 2
    raise TypeError('not a scalar: %r' % (type(v),))


def tensor(x, dtype=None, device=None, requires_grad=False):
    a, c = _infer(x)
    if isinstance(c, rt.dtype):
        dt = c
    else:
        dt = (rt.bool, rt.int64, _default[0])[c]
    dt = dtype or dt
    r = SymTensor(convarr(a, dt), dt)
    return r


def as_tensor(x, dtype=None, device=None):
    if isinstance(x, SymTensor):
        return x if dtype is None else x.to(dtype)
    return tensor(x, dtype)


def from_numpy(x):
    r = tensor(x)
    return r


def _shape(s):
    if len(s) == 1 and isinstance(s[0], (tuple, list)):
        s = s[0]
    return tuple(int(x) for x in s)


def _full(s, v, dt):
    out = np.empty(tuple(s), object)
    out[...] = conv(v, dt)
    return SymTensor(out, dt)


def zeros(*s, dtype=None, device=None, size=None, requires_grad=False):
    return _full(_shape(s if size is None else (size,)), 0, dtype or _default[0])


def ones(*s, dtype=None, device=None, size=None, requires_grad=False):
    return _full(_shape(s if size is None else (size,)), 1, dtype or _default[0])


def empty(*s, dtype=None, device=None, size=None, requires_grad=False):
    return _full(_shape(s if size is None else (size,)), 0, dtype or _default[0])


def full(size, fill_value, dtype=None, device=None, requires_grad=False):
    v = fill_value.item() if isinstance(fill_value, SymTensor) else fill_value
    if dtype is None:
        c = _cat_scalar(v)
        dtype = (rt.bool, rt.int64, _default[0])[c]
    if isinstance(size, int):
        size = (size,)
    return _full(tuple(int(x) for x in size), v, dtype)


def full_like(x, v, dtype=None, device=None):
    return _full(x.shape, v.item() if isinstance(v, SymTensor) else v, dtype or x.dt)


def zeros_like(x, dtype=None, device=None):
    return _full(x.shape, 0, dtype or x.dt)


def ones_like(x, dtype=None, device=None):
    return _full(x.shape, 1, dtype or x.dt)


def empty_like(x, dtype=None, device=None):
    return _full(x.shape, 0, dtype or x.dt)


def eye(n, m=None, dtype=None, device=None):
    r = zeros(n, m or n, dtype=dtype)
    for i in range(min(n, m or n)):
        r.a[i, i] = conv(1, r.dt)
    return r


def arange(start, end=None, step=1, dtype=None, device=None):
    if end is None:
        start, end = 0, start
    if all(isinstance(x, int) for x in (start, end, step)):
        vals = list(range(start, end, step))
        return tensor(vals, dtype=dtype or rt.int64) if vals else SymTensor(np.empty((0,), object), dtype or rt.int64)
    raise Unsupported('arange of non-integers')


def linspace(start, end, steps, dtype=None, device=None):
    s, e = lift(start.item() if isinstance(start, SymTensor) else start), \
        lift(end.item() if isinstance(end, SymTensor) else end)
    steps = int(steps)
    if steps == 1:
        return SymTensor(np.array([s], dtype=object), dtype or _default[0])
    out = np.empty((steps,), object)
    for i in range(steps):
        out[i] = s + (e - s) * tm.q(tm.Fraction(i, steps - 1))
    return SymTensor(out, dtype or _default[0])


# ------------------------------------------------------------------------------------------ joins
def _tl(ts):
    return [t for t in ts]


def stack(ts, dim=0):
    ts = _tl(ts)
    if not all(isinstance(t, SymTensor) for t in ts):
        raise TypeError('stack expects tensors')
    dt = result_dt(ts)
    for t in ts:
        if t.a.shape != ts[0].a.shape:
            raise RuntimeError('stack expects each tensor to be equal size')
    d = dim if dim >= 0 else dim + ts[0].a.ndim + 1
    return SymTensor(np.stack([convarr(t.a, dt) if t.dt != dt else t.a for t in ts], axis=d), dt)


def cat(ts, dim=0, axis=None):
    if axis is not None:
        dim = axis
    ts = _tl(ts)
    if not all(isinstance(t, SymTensor) for t in ts):
        raise TypeError('cat expects tensors')
    if any(t.a.ndim == 0 for t in ts):
        raise RuntimeError('zero-dimensional tensor cannot be concatenated')
    dt = result_dt(ts) if len(ts) > 1 else ts[0].dt
    ts2 = [t for t in ts if not (t.a.ndim == 1 and t.a.size == 0)] or ts[:1]
    for t in ts2:
        if t.a.ndim != ts2[0].a.ndim:
            raise RuntimeError('Tensors must have same number of dimensions')
        if dim >= t.a.ndim or dim < -t.a.ndim:
            raise IndexError('Dimension out of range')
    try:
        return SymTensor(np.concatenate([convarr(t.a, dt) if t.dt != dt else t.a for t in ts2], axis=dim), dt)
    except ValueError as e:
        raise RuntimeError(str(e))


concat = concatenate = cat


def vstack(ts):
    return cat([t if t.a.ndim > 1 else t.unsqueeze(0) for t in ts], 0)


def hstack(ts):
    return cat(ts, 0 if ts[0].a.ndim == 1 else 1)


def chunk(x, n, dim=0):
    L = x.a.shape[dim]
    size = -(-L // n)
    return split(x, size, dim)


def split(x, n, dim=0):
    L = x.a.shape[dim]
    out = []
    sizes = list(n) if isinstance(n, (list, tuple)) else None
    i = 0
    j = 0
    while i < L:
        s = sizes[j] if sizes else n
        sl = [slice(None)] * x.a.ndim
        sl[dim] = slice(i, i + s)
        out.append(SymTensor(x.a[tuple(sl)], x.dt))
        i += s
        j += 1
    return tuple(out)


def unbind(x, dim=0):
    return x.unbind(dim)


def gather(x, dim, index):
    out = np.empty(index.a.shape, object)
    for pos in np.ndindex(*index.a.shape):
        p = list(pos)
        p[dim] = int(index.a[pos])
        out[pos] = x.a[tuple(p)]
    return SymTensor(out, x.dt)


def tile(x, s):
    return SymTensor(np.tile(x.a, tuple(s)), x.dt)


def reshape(x, s):
    return x.reshape(s)


def flatten(x, *a, **k):
    return x.flatten(*a, **k)


def squeeze(x, d=None, dim=None):
    return x.squeeze(d if d is not None else dim)


def unsqueeze(x, dim):
    return x.unsqueeze(dim)


def permute(x, d):
    return x.permute(d)


def transpose(x, i, j):
    return x.transpose(i, j)


def broadcast_to(x, s):
    return x.expand(s)


def movedim(x, a, b):
    return SymTensor(np.moveaxis(x.a, a, b), x.dt)


def flip(x, dims):
    dims = dims if isinstance(dims, (tuple, list)) else (dims,)
    return SymTensor(np.flip(x.a, axis=tuple(dims)).copy(), x.dt)


def roll(x, shifts, dims=None):
    return SymTensor(np.roll(x.a, shifts, axis=dims), x.dt)


def clone(x):
    return x.clone()


# ------------------------------------------------------------------------------------------ algebra
def _sumprod_fix(r, dt):
    r = r if isinstance(r, np.ndarray) else obj(r)
    if cat_of(dt) == 2:
        r = _lift_arr(r)
    return SymTensor(r, dt)


def _chk2(a, b):
    if a.dt != b.dt:
        raise RuntimeError('expected scalar types to match: %s, %s' % (a.dt, b.dt))


def matmul(a, b):
    _chk2(a, b)
    try:
        r = _np_matmul(a.a, b.a)
    except ValueError as e:
        raise RuntimeError(str(e))
    return _sumprod_fix(r, a.dt)


def _np_matmul(x, y):
    if 0 in x.shape or 0 in y.shape:
        raise Unsupported('empty matmul')
    return np.matmul(x, y)


mm = matmul
bmm = matmul


def mv(a, b):
    return matmul(a, b)


def dot(a, b):
    return matmul(a, b)


def inner(a, b):
    if a.a.ndim == 1 and b.a.ndim == 1:
        return matmul(a, b)
    return einsum('...i,...i->...', a, b) if b.a.ndim == 1 else _uns('inner')


def outer(a, b):
    return SymTensor(MUL(a.a[:, None], b.a[None, :]), result_dt((a, b)))


def einsum(eq, *ops):
    if len(ops) == 1 and isinstance(ops[0], (list, tuple)):
        ops = tuple(ops[0])
    dts = {o.dt for o in ops}
    if len(dts) > 1:
        raise RuntimeError('einsum expects operands of the same dtype')
    eq = eq.replace(' ', '')
    if '...' in eq:
        r = np.einsum(eq, *[o.a for o in ops])
        return _sumprod_fix(r, ops[0].dt)
    ins, out = eq.split('->') if '->' in eq else (eq, None)
    ins = ins.split(',')
    if out is None:
        cnt = {}
        for s in ins:
            for c in s:
                cnt[c] = cnt.get(c, 0) + 1
        out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    dim = {}
    for s, o in zip(ins, ops):
        if len(s) != o.a.ndim:
            raise RuntimeError('einsum: wrong number of subscripts')
        for c, n in zip(s, o.a.shape):
            if dim.setdefault(c, n) != n:
                if 1 in (dim[c], n):
                    raise Unsupported('einsum broadcasting')
                raise RuntimeError('einsum: size mismatch')
    summed = [c for c in dim if c not in out]
    res = np.empty(tuple(dim[c] for c in out), object)
    letters = list(out) + summed
    for pos in np.ndindex(*res.shape):
        acc = ZERO
        env = dict(zip(out, pos))
        for sp in itertools.product(*(range(dim[c]) for c in summed)):
            env.update(zip(summed, sp))
            p = ONE
            for s, o in zip(ins, ops):
                v = _num(o.a[tuple(env[c] for c in s)])
                if v is ZERO or (isinstance(v, int) and v == 0):
                    p = ZERO
                    break
                p = p * v
            acc = acc + p
        res[pos] = acc
    return SymTensor(res, ops[0].dt) if res.shape else SymTensor(obj(res[()]), ops[0].dt)


def tensordot(a, b, dims=2):
    if isinstance(dims, int):
        return _sumprod_fix(np.tensordot(a.a, b.a, axes=dims), a.dt)
    return _sumprod_fix(np.tensordot(a.a, b.a, axes=[list(d) for d in dims]), a.dt)


def kron(a, b):
    return _sumprod_fix(np.kron(a.a, b.a), a.dt)


def trace(x):
    acc = ZERO
    for i in range(min(x.a.shape)):
        acc = acc + _num(x.a[i, i])
    return SymTensor(obj(acc), x.dt)


def diag(x, diagonal=0):
    if x.a.ndim == 1:
        n = x.a.shape[0]
        r = _full((n, n), 0, x.dt)
        for i in range(n):
            r.a[i, i] = x.a[i]
        return r
    return SymTensor(np.diagonal(x.a).copy(), x.dt)


def diagonal(x, offset=0, dim1=0, dim2=1):
    return SymTensor(np.diagonal(x.a, offset, dim1, dim2), x.dt)


def _det(m):
    n = m.shape[0]
    if n == 1:
        return lift(m[0, 0])
    if n == 2:
        return lift(m[0, 0]) * m[1, 1] - lift(m[0, 1]) * m[1, 0]
    if n > 4:
        raise Unsupported('determinant of size %d' % n)
    acc = ZERO
    for j in range(n):
        if m[0, j] is ZERO:
            continue
        minor = np.delete(np.delete(m, 0, 0), j, 1)
        t = lift(m[0, j]) * _det(minor)
        acc = acc + (t if j % 2 == 0 else -t)
    return acc


def det(x):
    if x.a.ndim == 2:
        return SymTensor(obj(_det(x.a)), x.dt)
    return stack([det(y) for y in x])


def inverse(x):
    if x.a.ndim > 2:
        return stack([inverse(y) for y in x])
    n = x.a.shape[0]
    if n != x.a.shape[1]:
        raise RuntimeError('square matrix expected')
    if INV_HOOK[0] is not None:
        r = INV_HOOK[0](x)
        if r is not None:
            return r
    if n > 4:
        raise Unsupported('inverse of size %d' % n)
    d = _det(x.a)
    if d is ZERO:
        raise RuntimeError('linalg.inv: singular matrix')
    out = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            if n == 1:
                c = ONE
            else:
                c = _det(np.delete(np.delete(x.a, i, 0), j, 1))
            c = c if (i + j) % 2 == 0 else -c
            out[j, i] = _div(c, d)
    return SymTensor(out, x.dt)


INV_HOOK = [None]


def solve(A, b):
    """Assumed contract of the library solver: A x = b (A nonsingular)."""
    n = A.a.shape[0]
    if b.a.ndim != 1 or A.a.ndim != 2:
        raise Unsupported('batched linear solve')
    x = np.empty((n,), object)
    for i in range(n):
        x[i] = tm.fresh('sol')
    for i in range(n):
        acc = ZERO
        for j in range(n):
            acc = acc + lift(A.a[i, j]) * x[j]
        if ASSUME[0] is not None:
            ASSUME[0](acc == lift(b.a[i]))
    return SymTensor(x, A.dt)


def norm(x, p=None, dim=None, ord=None, keepdim=False, dtype=None):
    if isinstance(p, (int, float)) and p != 2 or (ord is not None and ord not in (2, 'fro')):
        raise Unsupported('norm order')
    if ord == 2 and x.a.ndim > 1 and dim is None:
        raise Unsupported('spectral norm')

    def nrm(v):
        acc = ZERO
        for e in v:
            e = lift(e)
            acc = acc + e * e
        return tm.root(acc, 2)
    if dim is None:
        return SymTensor(obj(nrm(x.a.reshape(-1))), x.dt)
    return reduce_dim(x, nrm, dim, keepdim)


def reduce_dim(x, f, dim, keepdim=False, dt=None):
    nd = x.a.ndim
    dims = tuple(d % nd for d in (dim if isinstance(dim, (tuple, list)) else (dim,)))
    rest = [d for d in range(nd) if d not in dims]
    y = np.transpose(x.a, rest + list(dims))
    rs = tuple(x.a.shape[d] for d in rest)
    out = np.empty(rs, object)
    for pos in np.ndindex(*rs):
        out[pos] = f(y[pos].reshape(-1))
    if not rs:
        out = obj(out[()])
    if keepdim:
        for d in sorted(dims):
            out = np.expand_dims(out, d)
    return SymTensor(out, dt or x.dt)


def _sum(v):
    acc = 0
    for e in v:
        acc = _num(e) + acc
    return acc


def tsum(x, dim=None, keepdim=False, dtype=None, axis=None):
    if dim is None:
        dim = axis
    dt = dtype or (x.dt if x.dt != rt.bool else rt.int64)
    f = (lambda v: conv(_sum(v), dt))
    if dim is None:
        return SymTensor(obj(f(x.a.reshape(-1))), dt)
    return reduce_dim(x, f, dim, keepdim, dt)


def prod(x, dim=None, keepdim=False):
    def f(v):
        acc = 1
        for e in v:
            acc = _num(e) * acc
        return conv(acc, x.dt)
    if dim is None:
        return SymTensor(obj(f(x.a.reshape(-1))), x.dt)
    return reduce_dim(x, f, dim, keepdim)


def mean(x, dim=None, keepdim=False, axis=None):
    if dim is None:
        dim = axis
    f = lambda v: lift(_sum(v)) / len(v) if len(v) else NAN
    if dim is None:
        return SymTensor(obj(f(x.a.reshape(-1))), x.dt)
    return reduce_dim(x, f, dim, keepdim)


def var(x, dim=None, unbiased=True, correction=None, keepdim=False):
    c = (1 if unbiased else 0) if correction is None else correction

    def f(v):
        n = len(v)
        if n - c <= 0:
            return NAN
        m = lift(_sum(v)) / n
        acc = ZERO
        for e in v:
            d = lift(e) - m
            acc = acc + d * d
        return acc / (n - c)
    if dim is None:
        return SymTensor(obj(f(x.a.reshape(-1))), x.dt)
    return reduce_dim(x, f, dim, keepdim)


def std(x, dim=None, unbiased=True, correction=None, keepdim=False):
    v = var(x, dim, unbiased, correction, keepdim)
    return sqrt(v)


class _MinMax(tuple):
    @property
    def values(self):
        return self[0]

    @property
    def indices(self):
        return self[1]


class _LazyIdx:
    def __getattr__(self, n):
        raise Unsupported('indices of a symbolic extremum')


def _extremum(f):
    def g(x, other=None, dim=None, keepdim=False):
        if isinstance(other, SymTensor):
            return SymTensor(f(x.a, other.a), result_dt((x, other)))
        if other is not None and dim is None:
            dim = other

        def red(v):
            acc = v[0]
            for e in v[1:]:
                acc = f(obj(acc), obj(e))[()]
            return acc
        if dim is None:
            if x.a.size == 0:
                raise RuntimeError('extremum of an empty tensor')
            return SymTensor(obj(red(x.a.reshape(-1))), x.dt)
        return _MinMax((reduce_dim(x, red, dim, keepdim), _LazyIdx()))
    return g


tmax = _extremum(MAX)
tmin = _extremum(MIN)


def amax(x, dim=None, keepdim=False):
    r = tmax(x, dim=dim, keepdim=keepdim) if dim is not None else tmax(x)
    return r[0] if isinstance(r, _MinMax) else r


def amin(x, dim=None, keepdim=False):
    r = tmin(x, dim=dim, keepdim=keepdim) if dim is not None else tmin(x)
    return r[0] if isinstance(r, _MinMax) else r


def maximum(a, b):
    return SymTensor(MAX(a.a, raw(b)), result_dt((a, b)))


def minimum(a, b):
    return SymTensor(MIN(a.a, raw(b)), result_dt((a, b)))


def clamp(x, min=None, max=None):
    r = x.a
    if min is not None:
        r = MAX(r, raw(min))
    if max is not None:
        r = MIN(r, raw(max))
    if cat_of(x.dt) == 2:
        r = _lift_arr(r)
    return SymTensor(r, x.dt)


clip = clamp


def tall(x, dim=None, keepdim=False):
    def f(v):
        acc = True
        for e in v:
            acc = tm.b_and(acc, _b(e))
        return acc
    if dim is None:
        return SymTensor(obj(f(x.a.reshape(-1))), rt.bool)
    return reduce_dim(x, f, dim, keepdim, rt.bool)


def tany(x, dim=None, keepdim=False):
    def f(v):
        acc = False
        for e in v:
            acc = tm.b_or(acc, _b(e))
        return acc
    if dim is None:
        return SymTensor(obj(f(x.a.reshape(-1))), rt.bool)
    return reduce_dim(x, f, dim, keepdim, rt.bool)


def _f1(f, fl=True):
    g = uf(f, 1)

    def h(x, **kw):
        if not isinstance(x, SymTensor):
            raise TypeError('expected a tensor')
        dt = x.dt if cat_of(x.dt) == 2 or not fl else _default[0]
        return SymTensor(g(x.a), dt)
    return h


sqrt = _f1(lambda t: tm.root(lift(t), 2))
exp = _f1(lambda t: tm.app('exp', t))
log = _f1(lambda t: tm.app('log', t))
sin = _f1(lambda t: tm.app('sin', t))
cos = _f1(lambda t: tm.app('cos', t))
tan = _f1(lambda t: tm.app('sin', t) / tm.app('cos', t))
tanh = _f1(lambda t: tm.app('tanh', t))
sigmoid = _f1(lambda t: tm.app('sigmoid', t))
acos = _f1(lambda t: tm.app('acos', t))
atan = _f1(lambda t: tm.app('atan', t))
square = _f1(lambda t: _num(t) * _num(t), False)
relu = _f1(lambda t: tm.t_max(lift(t), ZERO), False)
neg = _f1(lambda t: -_num(t), False)
reciprocal = _f1(lambda t: _div(ONE, t))
PI = tm.app('pi')
deg2rad = _f1(lambda t: lift(t) * PI / 180)
rad2deg = _f1(lambda t: lift(t) * 180 / PI)


def _sgn(t):
    t = lift(t)
    if t.k == 'q':
        return tm.q((t.args[0] > 0) - (t.args[0] < 0))
    return tm.ite(tm.atom('<', t), tm.MINUS1, tm.ite(tm.atom('==', t), ZERO, ONE))


sign = _f1(_sgn, False)


def tabs(x):
    return SymTensor(ABS(x.a), x.dt)


absolute = tabs


def tpow(x, n):
    return x ** n if isinstance(x, SymTensor) else n.__rpow__(x)


def mul(a, b):
    return a * b


def div(a, b):
    return a / b


def add(a, b, alpha=1):
    return a + (b if alpha == 1 else b * alpha)


def sub(a, b, alpha=1):
    return a - (b if alpha == 1 else b * alpha)


def atan2(a, b):
    return SymTensor(uf(lambda y, x: tm.app('atan2', y, x))(a.a, b.a), a.dt)


def where(cond, a=None, b=None):
    if a is None and b is None:
        return cond.nonzero(as_tuple=True)
    dt = result_dt((a, b))
    if not isinstance(a, SymTensor) and not isinstance(b, SymTensor):
        dt = rt.int64 if isinstance(a, int) and isinstance(b, int) else _default[0]
    f = uf(lambda c, x, y: x if bool(_b(c)) else y, 3)
    r = f(cond.a, raw(a), raw(b))
    return SymTensor(convarr(r, dt), dt)


def cond(pred, t, f, operands=()):
    p = bool(pred)
    return (t if p else f)(*operands)


def logical_not(x):
    return ~x


def logical_and(a, b):
    return SymTensor(AND(a.a, b.a), rt.bool)


def logical_or(a, b):
    return SymTensor(OR(a.a, b.a), rt.bool)


def logical_xor(a, b):
    return SymTensor(uf(lambda x, y: _neg(_eq(_b(x), _b(y))))(a.a, b.a), rt.bool)


def ge(a, b):
    return a >= b


def gt(a, b):
    return a > b


def le(a, b):
    return a <= b


def lt(a, b):
    return a < b


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def isnan(x):
    return SymTensor(uf(lambda t: isinstance(t, T) and t.k == 'nan', 1)(x.a), rt.bool)


def isfinite(x):
    return ~isnan(x)


def isinf(x):
    return SymTensor(uf(lambda t: False, 1)(x.a), rt.bool)


def _close(a, b, rtol, atol):
    a, b = lift(a), lift(b)
    if a is b:
        return True
    d = a - b
    if d is ZERO:
        return True
    return abs(d) <= lift(atol) + lift(rtol) * abs(b)


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return SymTensor(uf(lambda x, y: _close(x, y, rtol, atol))(a.a, b.a), rt.bool)


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(tall(isclose(a, b, rtol, atol)))


def equal(a, b):
    if a.a.shape != b.a.shape:
        return False
    return bool(tall(SymTensor(EQ(a.a, b.a), rt.bool)))


def is_tensor(x):
    return isinstance(x, SymTensor)


def is_floating_point(x):
    return x.dt in FLOATS


def numel(x):
    return x.a.size


def _ints(x):
    out = []
    for v in x.a.reshape(-1):
        if isinstance(v, T):
            if not v.is_const():
                raise Unsupported('ordering of symbolic values')
            v = v.const()
        out.append(v)
    return out


def unique(x, sorted=True, return_inverse=False, return_counts=False, dim=None):
    if dim is not None:
        raise Unsupported('unique along a dimension')
    vals = _ints(x)
    u = __builtins__['sorted'](set(vals)) if isinstance(__builtins__, dict) else __import__('builtins').sorted(set(vals))
    r = SymTensor(convarr(_objlist(u), x.dt), x.dt)
    outs = [r]
    if return_inverse:
        pos = {v: i for i, v in enumerate(u)}
        outs.append(SymTensor(_objlist([pos[v] for v in vals]).reshape(x.a.shape), rt.int64))
    if return_counts:
        outs.append(SymTensor(_objlist([vals.count(v) for v in u]), rt.int64))
    return outs[0] if len(outs) == 1 else tuple(outs)


def _objlist(v):
    o = np.empty((len(v),), object)
    for i, x in enumerate(v):
        o[i] = x
    return o


def bucketize(x, boundaries, right=False, out_int32=False):
    import bisect
    b = _ints(boundaries)
    f = (bisect.bisect_right if right else bisect.bisect_left)
    if not isinstance(x, SymTensor):
        return SymTensor(obj(f(b, x)), rt.int64)
    vals = [f(b, v) for v in _ints(x)]
    return SymTensor(_objlist(vals).reshape(x.a.shape), rt.int64)


searchsorted = lambda b, x, right=False: bucketize(x, b, right)


def sort(x, dim=-1, descending=False):
    if x.a.ndim != 1:
        raise Unsupported('sort of a matrix')
    v = _ints(x)
    o = sorted(range(len(v)), key=lambda i: v[i], reverse=descending)
    return _MinMax((SymTensor(_objlist([x.a[i] for i in o]), x.dt), SymTensor(_objlist(o), rt.int64)))


def argsort(x, dim=-1, descending=False, stable=False):
    return sort(x, dim, descending)[1]


def argmax(x, dim=None):
    v = _ints(x)
    return SymTensor(obj(v.index(max(v))), rt.int64)


def argmin(x, dim=None):
    v = _ints(x)
    return SymTensor(obj(v.index(min(v))), rt.int64)


def cumsum(x, dim):
    out = x.a.copy()
    n = x.a.shape[dim]
    for i in range(1, n):
        s = [slice(None)] * x.a.ndim
        p = list(s)
        s[dim], p[dim] = i, i - 1
        out[tuple(s)] = ADD(out[tuple(s)], out[tuple(p)])
    return SymTensor(out, x.dt)


def diff(x, n=1, dim=-1):
    r = x.a
    for _ in range(n):
        s = [slice(None)] * r.ndim
        p = list(s)
        s[dim], p[dim] = slice(1, None), slice(None, -1)
        r = SUB(r[tuple(s)], r[tuple(p)])
    return SymTensor(r, x.dt)


def numerical_pad(x, pad, mode='constant', value=0):
    raise Unsupported('pad')


def cross(a, b, dim=-1):
    r = np.empty(a.a.shape, object)
    x, y = np.moveaxis(a.a, dim, -1), np.moveaxis(b.a, dim, -1)
    z = np.moveaxis(r, dim, -1)
    for k in range(3):
        i, j = (k + 1) % 3, (k + 2) % 3
        z[..., k] = SUB(MUL(x[..., i], y[..., j]), MUL(x[..., j], y[..., i]))
    return SymTensor(r, a.dt)


def triu_indices(row, col, offset=0, **k):
    r, c = np.triu_indices(row, offset, col)
    return SymTensor(_intobj(np.stack([r, c])), rt.int64)


# ------------------------------------------------------------------------------------------ vmap
def _tree(x, f):
    if isinstance(x, SymTensor):
        return f(x)
    if isinstance(x, dict):
        return type(x)((k, _tree(v, f)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return type(x)(_tree(v, f) for v in x)
    return x


def vmap(func, in_dims=0, out_dims=0, randomness='error', chunk_size=None):
    def run(*args, **kw):
        dims = in_dims if isinstance(in_dims, (tuple, list)) else (in_dims,) * len(args)
        sizes = []

        def walk(a, d):
            if d is None:
                return
            if isinstance(a, SymTensor):
                sizes.append(a.a.shape[d])
            elif isinstance(a, dict):
                for k, v in a.items():
                    walk(v, d[k] if isinstance(d, dict) else d)
            elif isinstance(a, (list, tuple)):
                for i, v in enumerate(a):
                    walk(v, d[i] if isinstance(d, (list, tuple)) else d)
        if len(dims) != len(args):
            raise ValueError('vmap: in_dims does not match the arguments')
        for a, d in zip(args, dims):
            walk(a, d)
        for v in kw.values():
            walk(v, 0)
        if not sizes:
            raise ValueError('vmap: no mapped argument')
        if len(set(sizes)) != 1:
            raise ValueError('vmap: inconsistent sizes')
        n = sizes[0]

        def pick(a, d, i):
            if d is None:
                return a
            if isinstance(a, SymTensor):
                sl = [slice(None)] * a.a.ndim
                sl[d] = i
                r = a.a[tuple(sl)]
                return SymTensor(r if isinstance(r, np.ndarray) else obj(r), a.dt)
            if isinstance(a, dict):
                return type(a)((k, pick(v, d[k] if isinstance(d, dict) else d, i)) for k, v in a.items())
            if isinstance(a, (list, tuple)):
                return type(a)(pick(v, d[j] if isinstance(d, (list, tuple)) else d, i) for j, v in enumerate(a))
            return a
        outs = [func(*[pick(a, d, i) for a, d in zip(args, dims)], **{k: pick(v, 0, i) for k, v in kw.items()})
                for i in range(n)]

        def join(xs, od):
            x = xs[0]
            if isinstance(x, SymTensor):
                if isinstance(od, (list, tuple)):
                    if len(od) != 1:
                        raise ValueError('vmap: out_dims does not match the outputs')
                    od = od[0]
                return stack(xs, od if isinstance(od, int) else 0)
            if isinstance(x, dict):
                return type(x)((k, join([y[k] for y in xs], od[k] if isinstance(od, dict) else od)) for k in x)
            if isinstance(x, (list, tuple)):
                return type(x)(join([y[i] for y in xs], od[i] if isinstance(od, (list, tuple)) else od)
                               for i in range(len(x)))
            raise Unsupported('vmap output of type %s' % type(x))
        return join(outs, out_dims)
    return run


# ------------------------------------------------------------------------------------------ nn
class Parameter(SymTensor):
    def __init__(self, data, requires_grad=True):
        SymTensor.__init__(self, data.a, data.dt)
        self.requires_grad = requires_grad

    def __deepcopy__(self, memo):
        return Parameter(SymTensor(self.a.copy(), self.dt), self.requires_grad)


class Module:
    training = True

    def __init__(self, *a, **k):
        self.__dict__.setdefault('_modules', {})
        self.__dict__.setdefault('_parameters', {})
        self.__dict__.setdefault('_buffers', {})

    def __setattr__(self, k, v):
        d = self.__dict__
        if isinstance(v, Module):
            d.setdefault('_modules', {})[k] = v
        elif isinstance(v, Parameter):
            d.setdefault('_parameters', {})[k] = v
        object.__setattr__(self, k, v)

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def named_parameters(self, prefix='', recurse=True):
        for k, v in self.__dict__.get('_parameters', {}).items():
            yield prefix + k, v
        for n, m in self.__dict__.get('_modules', {}).items():
            yield from m.named_parameters(prefix + n + '.')

    def parameters(self, recurse=True):
        for _, p in self.named_parameters():
            yield p

    def named_modules(self):
        yield '', self
        for n, m in self.__dict__.get('_modules', {}).items():
            yield n, m

    def modules(self):
        for _, m in self.named_modules():
            yield m

    def children(self):
        yield from self.__dict__.get('_modules', {}).values()

    def register_parameter(self, k, v):
        self.__dict__.setdefault('_parameters', {})[k] = v
        object.__setattr__(self, k, v)

    def register_buffer(self, k, v, persistent=True):
        object.__setattr__(self, k, v)

    def register_module(self, k, v):
        setattr(self, k, v)

    add_module = register_module

    def state_dict(self):
        return {k: v for k, v in self.named_parameters()}

    def load_state_dict(self, state, strict=True):
        own = self.state_dict()
        if strict and set(own) != set(state):
            raise RuntimeError('Error(s) in loading state_dict')
        for k, v in state.items():
            if k in own:
                if own[k].a.shape != v.a.shape:
                    raise RuntimeError('Error(s) in loading state_dict: size mismatch')
                own[k].a[...] = v.a

    def to(self, *a, **k):
        return self

    def train(self, m=True):
        self.training = m
        return self

    def eval(self):
        return self.train(False)

    def requires_grad_(self, f=True):
        for p in self.parameters():
            p.requires_grad = f
        return self

    def zero_grad(self, *a, **k):
        pass

    def extra_repr(self):
        return ''

    def float(self):
        raise Unsupported('Module.float')

    double = float


class ModuleDict(Module):
    def __init__(self, d=None):
        Module.__init__(self)
        for k, v in (d or {}).items():
            self[k] = v

    def __setitem__(self, k, v):
        self._modules[k] = v

    def __getitem__(self, k):
        return self._modules[k]

    def __contains__(self, k):
        return k in self._modules

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules)

    def keys(self):
        return self._modules.keys()

    def items(self):
        return self._modules.items()

    def values(self):
        return self._modules.values()

    def update(self, d):
        for k, v in d.items():
            self[k] = v


class ModuleList(Module):
    def __init__(self, ms=()):
        Module.__init__(self)
        for m in ms:
            self.append(m)

    def append(self, m):
        self._modules[str(len(self._modules))] = m
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            return ModuleList(list(self._modules.values())[i])
        return list(self._modules.values())[i]

    def __setitem__(self, i, m):
        self._modules[list(self._modules)[i]] = m

    def __len__(self):
        return len(self._modules)

    def __iter__(self):
        return iter(self._modules.values())


class Sequential(ModuleList):
    def __init__(self, *ms):
        ModuleList.__init__(self, ms)

    def forward(self, x):
        for m in self:
            x = m(x)
        return x


class ParameterDict(Module):
    def __init__(self, d=None):
        Module.__init__(self)
        for k, v in (d or {}).items():
            self[k] = v

    def __setitem__(self, k, v):
        if isinstance(v, SymTensor) and not isinstance(v, Parameter):
            v = Parameter(v)
        self._parameters[k] = v

    def __getitem__(self, k):
        return self._parameters[k]

    def __contains__(self, k):
        return k in self._parameters

    def __iter__(self):
        return iter(self._parameters)

    def __len__(self):
        return len(self._parameters)

    def keys(self):
        return self._parameters.keys()

    def items(self):
        return self._parameters.items()

    def values(self):
        return self._parameters.values()

    def update(self, d):
        for k, v in d.items():
            self[k] = v


class Linear(Module):
    def __init__(self, in_features, out_features, bias=True, device=None, dtype=None):
        Module.__init__(self)
        i, o = in_features, out_features
        self.in_features, self.out_features = i, o
        self.weight = Parameter(fresh_tensor('w', (o, i)))
        self.bias = Parameter(fresh_tensor('b', (o,))) if bias else None

    def forward(self, x):
        y = matmul(x, self.weight.t())
        return y if self.bias is None else y + self.bias


def fresh_tensor(prefix, shape, dt=None, **kw):
    out = np.empty(tuple(shape), object)
    for p in np.ndindex(*out.shape):
        out[p] = tm.fresh(prefix, **kw)
    return SymTensor(out, dt)


class MSELoss(Module):
    def __init__(self, size_average=None, reduce=None, reduction='mean'):
        Module.__init__(self)
        self.reduction = reduction

    def forward(self, a, b):
        d = a - b
        s = d * d
        return mean(s) if self.reduction == 'mean' else tsum(s) if self.reduction == 'sum' else s


class _NoGrad:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f=None):
        return f if f is not None else self


class Missing:
    """Module stand-in whose attributes are unsupported until used."""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Missing(self._n + '.' + k)

    def __call__(self, *a, **k):
        raise Unsupported('call of ' + self._n)

    def __mro_entries__(self, bases):
        return (object,)

    def __iter__(self):
        raise Unsupported('iteration of ' + self._n)

    def __bool__(self):
        raise Unsupported('truth of ' + self._n)


# ---------------------------------------------------------------------- padding, convolution, Fourier transform
def pad(x, pad, mode='constant', value=0.0):
    if len(pad) % 2 or len(pad) // 2 > x.a.ndim:
        raise RuntimeError('padding length')
    if mode == 'replicate' and not (len(pad) // 2 <= x.a.ndim - 1):
        raise RuntimeError('padding of an unbatched tensor')
    if any(int(p) < 0 for p in pad):
        raise Unsupported('negative padding')
    a = x.a
    for d in range(len(pad) // 2):
        ax = a.ndim - 1 - d
        lo, hi = int(pad[2 * d]), int(pad[2 * d + 1])
        first, last = np.take(a, [0], axis=ax), np.take(a, [-1], axis=ax)
        if mode == 'constant':
            z = np.empty(first.shape, object)
            z[...] = lift(value) if value is not None else ZERO
            first = last = z
        elif mode != 'replicate':
            raise Unsupported('padding mode ' + str(mode))
        a = np.concatenate([first] * lo + [a] + [last] * hi, axis=ax)
    return SymTensor(a.copy(), x.dt)


def conv1d(input, weight, bias=None, stride=1, padding=0, dilation=1, groups=1):
    if bias is not None or stride not in (1, (1,)) or padding not in (0, (0,)) or dilation not in (1, (1,)):
        raise Unsupported('convolution options')
    if input.dt != weight.dt:
        raise RuntimeError('expected scalar type %s but found %s' % (input.dt, weight.dt))
    if input.a.ndim != 3 or weight.a.ndim != 3:
        raise Unsupported('unbatched convolution')
    n, c, l = input.a.shape
    o, cg, k = weight.a.shape
    if c % groups or o % groups or c // groups != cg or l < k:
        raise RuntimeError('convolution shapes')
    r = np.empty((n, o, l - k + 1), object)
    for b, q, i in np.ndindex(*r.shape):
        g = q // (o // groups)
        acc = ZERO
        for j in range(cg):
            for m in range(k):
                acc = acc + _num(input.a[b, g * cg + j, i + m]) * _num(weight.a[q, j, m])
        r[b, q, i] = acc
    return SymTensor(r, input.dt)


class SymComplex:
    """Complex tensor: real and imaginary parts."""

    def __init__(self, re, im):
        self.real, self.imag = re, im

    shape = property(lambda self: self.real.shape)

    def __mul__(self, o):
        if isinstance(o, SymComplex):
            return SymComplex(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
        return SymComplex(self.real * o, self.imag * o)
    __rmul__ = __mul__

    def __add__(self, o):
        return SymComplex(self.real + o.real, self.imag + o.imag)

    def clone(self):
        return SymComplex(self.real.clone(), self.imag.clone())

    def __setitem__(self, k, v):
        if isinstance(v, SymComplex):
            self.real[k], self.imag[k] = v.real, v.imag
        else:
            self.real[k], self.imag[k] = v, 0.0

    def __getitem__(self, k):
        return SymComplex(self.real[k], self.imag[k])

    def abs(self):
        return sqrt(self.real * self.real + self.imag * self.imag)
    __abs__ = abs

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('complex tensor attribute ' + k)


def root_of_unity(n, k):
    """cos and sin of 2 pi k / n as exact algebraic numbers."""
    k %= n
    g = _math.gcd(n, k) if k else n
    n, k = n // g, k // g
    h = tm.q(Fraction(1, 2))
    s2, s3 = tm.root(lift(2), 2) * h, tm.root(lift(3), 2) * h
    tab = {1: [(ONE, ZERO)], 2: [None, (-ONE, ZERO)], 3: [None, (-h, s3), (-h, -s3)],
           4: [None, (ZERO, ONE), None, (ZERO, -ONE)], 6: [None, (h, s3), None, None, None, (h, -s3)],
           8: [None, (s2, s2), None, (-s2, s2), None, (-s2, -s2), None, (s2, -s2)],
           12: [None, (s3, h), None, None, None, (-s3, h), None, (-s3, -h), None, None, None, (s3, -h)]}
    if n not in tab:
        raise Unsupported('Fourier transform of this length')
    return tab[n][k]


def _dft(re, im, dim, sgn, scale):
    a, b = np.moveaxis(re.a, dim, 0), np.moveaxis(im.a, dim, 0)
    n = a.shape[0]
    x, y = np.empty(a.shape, object), np.empty(a.shape, object)
    for p in np.ndindex(*a.shape):
        u, v = ZERO, ZERO
        for t in range(n):
            c, s = root_of_unity(n, sgn * p[0] * t)
            f, g = _num(a[(t,) + p[1:]]), _num(b[(t,) + p[1:]])
            u, v = u + f * c - g * s, v + f * s + g * c
        x[p], y[p] = u * scale(n), v * scale(n)
    return SymComplex(SymTensor(np.moveaxis(x, 0, dim).copy(), re.dt), SymTensor(np.moveaxis(y, 0, dim).copy(), re.dt))


def fft(x, n=None, dim=-1, norm=None):
    if n is not None or norm not in (None, 'backward'):
        raise Unsupported('Fourier transform options')
    if not isinstance(x, SymComplex):
        x = SymComplex(x, x * 0)
    return _dft(x.real, x.imag, dim, -1, lambda n: ONE)


def ifft(x, n=None, dim=-1, norm=None):
    if n is not None or norm not in (None, 'backward'):
        raise Unsupported('Fourier transform options')
    if not isinstance(x, SymComplex):
        x = SymComplex(x, x * 0)
    return _dft(x.real, x.imag, dim, 1, lambda n: tm.q(Fraction(1, n)))


def fftfreq(n, d=1.0):
    r = np.empty((n,), object)
    for i in range(n):
        r[i] = tm.q(Fraction(i if i <= (n - 1) // 2 else i - n, n)) / lift(d)
    return SymTensor(r, _default[0])


class ShimModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported(self.__name__ + '.' + k)


def _ns(name, **kw):
    m = ShimModule(name)
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def set_default_dtype(d):
    _default[0] = d


def get_default_dtype():
    return _default[0]


class Dataset:
    def __getitem__(self, i):
        raise NotImplementedError


class Subset(Dataset):
    """torch.utils.data.Subset (contract of the library class)."""
    def __init__(self, dataset, indices):
        self.dataset, self.indices = dataset, indices

    def __getitem__(self, i):
        if isinstance(i, list):
            return self.dataset[[self.indices[k] for k in i]]
        return self.dataset[self.indices[i]]

    def __len__(self):
        return len(self.indices)


class ConcatDataset(Dataset):
    """torch.utils.data.ConcatDataset (contract of the library class)."""
    def __init__(self, datasets):
        self.datasets = list(datasets)
        if not self.datasets:
            raise AssertionError('datasets should not be an empty iterable')

    def __getitem__(self, i):
        if i < 0:
            i += len(self)
        for d in self.datasets:
            if i < len(d):
                return d[i]
            i -= len(d)
        raise IndexError(i)

    def __len__(self):
        return sum(len(d) for d in self.datasets)


def randperm(n, **k):
    """One fixed permutation."""
    o = list(range(n))
    return tensor(o[1::2][::-1] + o[0::2], dtype=rt.int64)


class DataLoader:
    """torch.utils.data.DataLoader (assumed contract): consecutive batches in sampling order, collated by collate_fn."""
    def __init__(self, dataset, batch_size=1, shuffle=None, collate_fn=None, drop_last=False, generator=None,
                 num_workers=0, worker_init_fn=None, pin_memory=False):
        if collate_fn is None:
            raise Unsupported('default collation')
        self.dataset, self.batch_size, self.shuffle, self.collate_fn = dataset, batch_size, bool(shuffle), collate_fn
        self.drop_last = drop_last
        self.order = None

    def __iter__(self):
        n = len(self.dataset)
        order = list(range(n))
        if self.shuffle:
            order = order[1::2][::-1] + order[0::2]
        self.order = order
        for i in range(0, n, self.batch_size):
            b = order[i:i + self.batch_size]
            if len(b) < self.batch_size and self.drop_last:
                return
            yield self.collate_fn([self.dataset[k] for k in b])

    def __len__(self):
        n, b = len(self.dataset), self.batch_size
        return n // b if self.drop_last else -(-n // b)


_FILES = {}


def _dcopy(x):
    return copy.deepcopy(x)


def save(obj_, path):
    """torch.save / torch.load (assumed contract): load returns a copy of what was last saved under the path."""
    path = str(path)
    if path.startswith(tempfile.gettempdir() + os.sep) and os.path.isdir(os.path.dirname(path)):
        # the file exists in the scratch directory of the case, its content is kept here
        key = 'vf-%d' % len(_FILES)
        with open(path, 'w') as f:
            f.write(key)
        _FILES[key] = _dcopy(obj_)
        return
    _FILES[path] = _dcopy(obj_)


def load(path, map_location=None, weights_only=None):
    path = str(path)
    if os.path.isfile(path):
        with open(path) as f:
            key = f.read()
        if key not in _FILES:
            raise Unsupported('torch.load of a foreign file')
        return _dcopy(_FILES[key])
    if path not in _FILES:
        raise FileNotFoundError(path)
    return _dcopy(_FILES[path])


def pickle_dump(obj_, file, *a, **k):
    """pickle.dump / pickle.load (assumed contract): load returns a copy of what was dumped into the file."""
    key = 'vf-%d' % len(_FILES)
    file.write(key.encode())
    _FILES[key] = _dcopy(obj_)


def pickle_load(file, *a, **k):
    key = file.read().decode()
    if key not in _FILES:
        raise Unsupported('pickle.load of a foreign file')
    return _dcopy(_FILES[key])


def softplus(x, *a, **k):
    raise Unsupported('softplus')


_FIRST = ('input', 'tensors', 'condition', 'A', 'data', 'tensor', 'self', 'size', 'equation', 'a')
_LATER = ('other', 'mat2', 'vec', 'vec2', 'tensor2', 'B', 'chunks', 'split_size_or_sections', 'split_size', 'dims', 'shape', 'size',
          'fill_value', 'exponent', 'boundaries', 'dim0', 'dim1', 'source', 'destination', 'b', 'index', 'axis')


def _kw(f):
    """Accepts the keyword names of torch for the positional parameters of a shim function."""
    import functools
    import inspect
    if isinstance(f, type):
        return f
    try:
        pars = list(inspect.signature(f).parameters.values())
    except (TypeError, ValueError):
        return f
    names = [p.name for p in pars if p.kind in (p.POSITIONAL_OR_KEYWORD, p.POSITIONAL_ONLY)]
    allnames = {p.name for p in pars}
    anykw = any(p.kind == p.VAR_KEYWORD for p in pars)

    @functools.wraps(f)
    def g(*a, **k):
        if k and any(x not in allnames for x in k) and names:
            k = dict(k)
            a = list(a)
            for x in [x for x in k if x not in allnames]:
                if x in _FIRST and not a:
                    a = [k.pop(x)]
            for x in [x for x in list(k) if x not in allnames]:
                if x in _LATER and len(names) > len(a):
                    free = [n for n in names[len(a):] if n not in k]
                    if free:
                        k[free[0]] = k.pop(x)
        return f(*a, **k)
    return g


def build():
    t = ShimModule('torch')
    me = globals()
    for n in ('Tensor tensor as_tensor from_numpy zeros ones empty full full_like zeros_like ones_like empty_like eye '
              'arange linspace stack cat concat concatenate vstack hstack chunk split unbind gather tile reshape '
              'flatten squeeze unsqueeze permute transpose broadcast_to movedim flip roll clone matmul mm bmm mv dot '
              'inner outer einsum tensordot kron trace diag diagonal det inverse norm prod mean var std maximum '
              'minimum clamp clip sqrt exp log sin cos tan tanh sigmoid acos atan square relu neg reciprocal deg2rad '
              'rad2deg sign absolute mul div add sub atan2 where cond logical_not logical_and logical_or logical_xor '
              'ge gt le lt eq ne isnan isfinite isinf isclose allclose equal is_tensor is_floating_point numel unique '
              'bucketize searchsorted sort argsort argmax argmin cumsum diff cross triu_indices vmap set_default_dtype '
              'get_default_dtype amax amin').split():
        setattr(t, n, _kw(me[n]))
    t.sum, t.max, t.min, t.all, t.any, t.abs, t.pow = map(_kw, (tsum, tmax, tmin, tall, tany, tabs, tpow))
    t.true_divide = t.divide = _kw(div)
    t.multiply, t.subtract = _kw(mul), _kw(sub)
    t.special = _ns('torch.special', expit=sigmoid)
    t.linalg = _ns('torch.linalg', norm=lambda x, ord=None, dim=None, keepdim=False, dtype=None:
                   norm(x, None, dim, ord, keepdim), vector_norm=lambda x, ord=2, dim=None, keepdim=False:
                   norm(x, ord, dim, None, keepdim), matrix_norm=lambda x, ord='fro': norm(x),
                   solve=_kw(solve), inv=_kw(inverse), det=_kw(det),
                   cross=cross, multi_dot=lambda ts: _multi(ts))
    for n in ('float32', 'float64', 'float16', 'bfloat16', 'int64', 'int32', 'int16', 'int8', 'uint8', 'bool',
              'float', 'double', 'int', 'long', 'cfloat', 'complex64', 'complex128', 'device', 'dtype', 'pi'):
        setattr(t, n, getattr(rt, n))
    t.pi = PI
    t.nan = float('nan')
    t.inf = float('inf')
    t.Size = Size
    t.no_grad = _NoGrad
    t.enable_grad = _NoGrad
    t.set_grad_enabled = _NoGrad
    t.set_printoptions = lambda *a, **k: None
    t.manual_seed = lambda *a, **k: None
    t.Generator = rt.Generator
    t.autograd = Missing('torch.autograd')
    t.cuda = _ns('torch.cuda', is_available=lambda: False, manual_seed=lambda *a: None,
                 manual_seed_all=lambda *a: None)
    t.optim = Missing('torch.optim')
    t.fft = _ns('torch.fft', fft=fft, ifft=ifft, fftfreq=fftfreq)
    t.backends = Missing('torch.backends')
    t.save, t.load = save, load
    t.randn = t.rand = t.randint = Missing('torch.rand')
    t.randperm = randperm
    t.func = _ns('torch.func', vmap=vmap)
    fn = _ns('torch.nn.functional', relu=relu, sigmoid=sigmoid, tanh=tanh, pad=pad,
             conv1d=conv1d, mse_loss=lambda a, b, reduction='mean': MSELoss(reduction=reduction)(a, b),
             linear=lambda x, w, b=None: (matmul(x, w.t()) if b is None else matmul(x, w.t()) + b))
    ini = _ns('torch.nn.init', uniform_=lambda x, a=0, b=1: x)
    t.nn = _ns('torch.nn', Module=Module, ModuleDict=ModuleDict, ModuleList=ModuleList, Sequential=Sequential,
               Parameter=Parameter, ParameterDict=ParameterDict, Linear=Linear, MSELoss=MSELoss, functional=fn,
               init=ini, GRU=Missing('torch.nn.GRU'), GRUCell=Missing('GRUCell'), Dropout=Missing('Dropout'))
    t.utils = _ns('torch.utils', data=_ns('torch.utils.data', Dataset=Dataset, DataLoader=DataLoader,
                                          Subset=Subset, ConcatDataset=ConcatDataset, random_split=Missing('random_split')),
                  tensorboard=Missing('tb'))
    return t


def _multi(ts):
    r = ts[0]
    for x in ts[1:]:
        r = matmul(r, x)
    return r


# methods that mirror functions
for _n, _f in (('sum', tsum), ('max', tmax), ('min', tmin), ('all', tall), ('any', tany), ('abs', tabs), ('pow', tpow),
               ('mean', mean), ('std', std), ('var', var), ('prod', prod), ('sqrt', sqrt), ('exp', exp), ('log', log),
               ('sin', sin), ('cos', cos), ('tanh', tanh), ('sigmoid', sigmoid), ('sign', sign), ('norm', norm),
               ('det', det), ('inverse', inverse), ('trace', trace), ('diag', diag), ('clamp', clamp), ('clip', clamp),
               ('matmul', matmul), ('mm', matmul), ('mv', matmul), ('dot', matmul), ('outer', outer), ('mul', mul),
               ('div', div), ('add', add), ('sub', sub), ('unique', unique), ('sort', sort), ('argsort', argsort),
               ('isnan', isnan), ('logical_not', logical_not), ('logical_and', logical_and),
               ('logical_or', logical_or), ('ge', ge), ('gt', gt), ('le', le), ('lt', lt), ('eq', eq), ('ne', ne),
               ('argmax', argmax), ('argmin', argmin), ('cumsum', cumsum), ('diff', diff), ('square', square),
               ('amax', amax), ('amin', amin), ('flip', flip), ('relu', relu), ('diagonal', diagonal),
               ('reciprocal', reciprocal), ('movedim', movedim), ('roll', roll), ('neg', neg), ('maximum', maximum),
               ('minimum', minimum), ('where', lambda self, c, o: where(c, self, o)), ('equal', equal),
               ('isfinite', isfinite), ('broadcast_to', broadcast_to), ('swapaxes', transpose), ('inner', inner)):
    setattr(SymTensor, _n, _f)
