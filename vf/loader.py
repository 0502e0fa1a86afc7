"""Loads the real source of /repo, unedited on disk, into symbolic execution.

What the extraction changes, mechanically, on every run:
 * `import torch / numpy / math` resolve to the symbolic semantics of symtorch.py and the shims below;
 * plotting, data-frame and I/O packages resolve to stand-ins whose use raises Unsupported;
 * in the material-model modules, iteration loops are cut at the loop head (entry -> havoc of the assigned
   names -> one arbitrary iteration), see `LoopCutter`;
 * docstrings, type names and everything else are executed as written.
"""
import ast
import builtins
import operator
import os
import re
import sys
import tempfile
import types
import importlib
import numpy as np
from fractions import Fraction
from . import terms as tm
from . import symtorch as st
from .terms import T, SB, Unsupported, lift

ROOT = os.environ.get('VF_SRC', '/repo/src/hookeai')
HOOKE = ('simulators', 'utilities', 'time_series_data', 'model_architectures', 'material_model_finder', 'ioput',
         'data_generation', 'miscellaneous', 'user_scripts', 'hookeai')
REAL = {'os', 're', 'sys', 'copy', 'itertools', 'abc', 'pathlib', 'functools', 'collections', 'typing', 'datetime',
        'time', 'warnings', 'pickle', 'enum', 'dataclasses', 'string', 'operator', 'numbers', '__future__', 'json',
        'contextlib', 'types', 'inspect'}


class PathEnd(BaseException):
    """The current symbolic path is covered by the loop-head state."""


# ---------------------------------------------------------------------------------------- loop cutting
class _Assigned(ast.NodeVisitor):
    """Names possibly changed by a loop body (stores, and bases of subscript/attribute stores)."""

    def __init__(self):
        self.names = set()
        self.inplace = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.inplace.add(n.target.id)
        self.generic_visit(n)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                self.names.add(b.id)
                self.inplace.add(b.id)
        self.generic_visit(n)

    visit_Attribute = visit_Subscript

    def visit_Call(self, n):
        # x.append(...), x.add_(...)
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                (n.func.attr in ('append', 'extend', 'update', 'pop', 'insert') or n.func.attr.endswith('_')):
            self.names.add(n.func.value.id)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def assigned(stmts):
    v = _Assigned()
    for s in stmts:
        v.visit(s)
    return v.names


def only_before_exit(stmts):
    """Names all of whose assignments sit in blocks that end by leaving the loop."""
    inside, outside = set(), set()

    def block(ss, leaving):
        lv = leaving or (bool(ss) and isinstance(ss[-1], (ast.Break, ast.Return, ast.Raise)))
        for s in ss:
            if isinstance(s, ast.If):
                block(s.body, lv)
                block(s.orelse, lv)
                v = _Assigned()
                v.visit(s.test)
                outside.update(v.names)
            elif isinstance(s, (ast.For, ast.While, ast.With, ast.Try)):
                outside.update(assigned([s]))
            else:
                (inside if lv else outside).update(assigned([s]))
    block(stmts, False)
    return inside - outside


def read_first(stmts, names):
    """Names read in the loop somewhere (over-approximation of loop-carried uses)."""
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in names:
                out.add(n.id)
    return out


class LoopCutter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.depth = 0
        self.count = 0

    def visit_FunctionDef(self, node):
        old, self.depth = self.depth, 0
        self.generic_visit(node)
        self.depth = old
        return node

    def _wrap(self, node, kind):
        body_names = assigned(node.body) | (assigned([ast.Expr(node.test)]) if kind == 'while' else set())
        names = sorted(body_names - only_before_exit(node.body))
        if kind == 'for':
            tgt = assigned([node.target]) if not isinstance(node.target, ast.Name) else {node.target.id}
            names = [n for n in names if n not in tgt]
        self.count += 1
        tok = 'vf_tok_%d' % self.count
        pre = [ast.parse('%s = vf_loop_(%d, %r)' % (tok, node.lineno, kind)).body[0]]
        for n in names:
            pre += ast.parse(
                'try:\n    vf_old_ = %s\nexcept NameError:\n    pass\nelse:\n    %s = %s.havoc(%r, vf_old_)\n'
                % (n, n, tok, n)).body
        if kind == 'while':
            node.test = ast.BoolOp(ast.And(), [ast.parse('%s.enter()' % tok, mode='eval').body, node.test])
        else:
            it = node.iter
            pre.insert(1, ast.parse('%s.it = None' % tok).body[0])
            pre[1].value = it
            node.iter = ast.parse('%s.iterate()' % tok, mode='eval').body
            pre.insert(2, ast.parse('%s.prepare()' % tok).body[0])
        return pre + [node]

    def visit_While(self, node):
        return self._wrap(node, 'while')

    def visit_For(self, node):
        if isinstance(node.iter, ast.Call) and isinstance(node.iter.func, ast.Name) and node.iter.func.id == 'range' \
                and isinstance(node.target, ast.Name) and self._iterative(node):
            return self._wrap(node, 'for')
        self.generic_visit(node)
        return node

    @staticmethod
    def _iterative(node):
        """A numerical iteration: leaves early, or re-assigns a plain name it also reads."""
        for n in ast.walk(ast.Module(node.body, [])):
            if isinstance(n, ast.Break):
                return True
        carried = set()
        stores = set()
        for s in node.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in stores:
                    carried.add(n.id)
            # targets of plain assignments become available after the statement
            stores |= {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        return bool(carried & stores)


MIN_CUT_RANGE = 8


class LoopToken:
    engine = None           # installed per exploration

    def __init__(self, line, kind):
        self.line, self.kind = line, kind
        self.n = 0
        self.it = None
        self.cut = CUT[0] and kind == 'while'

    def prepare(self):
        it = self.it
        self.cut = CUT[0] and isinstance(it, range) and len(it) >= MIN_CUT_RANGE and it.step == 1
        if not isinstance(it, range):
            self.cut = False

    def havoc(self, name, old):
        if not self.cut:
            return old
        return havoc_value(name, old)

    def enter(self):
        if not self.cut:
            return True
        self.n += 1
        if self.n == 1:
            CUT_LOG.add(self.line)
            return True
        raise PathEnd()

    def iterate(self):
        if not self.cut:
            yield from self.it
            return
        CUT_LOG.add(self.line)
        v = tm.fresh('hv_it', nonneg=self.it.start >= 0)
        st.ASSUME[0](v >= self.it.start)
        st.ASSUME[0](v <= self.it.stop - 1)
        yield v
        if bool(v == self.it.stop - 1):
            return
        raise PathEnd()


CUT = [True]
CUT_LOG = set()


def havoc_value(name, old):
    if isinstance(old, st.SymTensor):
        out = np.empty(old.a.shape, object)
        for p in np.ndindex(*out.shape):
            c = st.cat_of(old.dt)
            out[p] = tm.fresh_bool('hv_' + name) if c == 0 else tm.fresh('hv_' + name)
        if not out.shape:
            x = out[()]
            out = st.obj(x)
        return st.SymTensor(out, old.dt)
    if isinstance(old, (bool, SB)):
        return tm.fresh_bool('hv_' + name)
    if isinstance(old, (int, float, T)):
        return tm.fresh('hv_' + name)
    if isinstance(old, np.ndarray):
        out = np.empty(old.shape, object)
        for p in np.ndindex(*out.shape):
            out[p] = tm.fresh('hv_' + name)
        return out
    if isinstance(old, dict):
        return {k: havoc_value(name, v) for k, v in old.items()}
    if old is None:
        return None
    if isinstance(old, (list, tuple)):
        return type(old)(havoc_value(name, v) for v in old)
    if callable(old) or isinstance(old, str):
        return old
    raise Unsupported('loop-carried value %s of type %s' % (name, type(old).__name__))


# ------------------------------------------------------------------------------------------- builtins
class _FM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, T)

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, st.SymTensor):
            x = x.item()
        if isinstance(x, (T, int, float, Fraction, SB, np.number)):
            return lift(x) if not isinstance(x, float) else x
        if isinstance(x, str) and x.strip() in FTOKENS:
            return FTOKENS[x.strip()]
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=_FM):
    pass


FTOKENS = {}            # text of a number in a file -> the arbitrary real it stands for


def ftoken(term):
    """Writes an arbitrary real into a text file: a unique decimal text which reads back as the same real."""
    t = '%d.%06d' % (900 + len(FTOKENS) // 1000000, len(FTOKENS) % 1000000)
    FTOKENS[t] = term
    return t


_FSPEC = re.compile(r'^([<>^]?)[-+ ]?0?(\d*)(?:\.\d+)?[eEfFgG]?$')


def _format(term, spec):
    """Prints a real: a text that reads back as the same real, in a field of the requested width."""
    if term.k == 'q':
        if not spec:
            return str(term)
        t = format(float(term.args[0]), spec)
        try:
            if Fraction(t.strip()) == term.args[0]:
                return t
        except ValueError:
            pass
    m = _FSPEC.match(spec)
    if not m:
        return str(term)
    return format(ftoken(term), (m.group(1) or '>') + m.group(2)) if m.group(2) else ftoken(term)


tm.FORMAT[0] = _format


def _cell(t):
    t = t.strip()
    return FTOKENS[t] if t in FTOKENS else lift(Fraction(t))


def genfromtxt(path, **k):
    if k:
        raise Unsupported('numpy.genfromtxt options')
    rows = [[_cell(w) for w in ln.split('#')[0].split()] for ln in open(path)]
    rows = [r for r in rows if r]
    if not rows or len({len(r) for r in rows}) != 1:
        raise Unsupported('numpy.genfromtxt of an irregular file')
    o = np.empty((len(rows), len(rows[0])), object)
    for p in np.ndindex(*o.shape):
        o[p] = rows[p[0]][p[1]]
    return o.squeeze()


_FRAME = []


def _frame():
    if not _FRAME:
        import pandas as pd

        class SymFrame(pd.DataFrame):
            """A table of reals; written to a file, every cell is a text that reads back as the same real."""

            @property
            def _constructor(self):
                return SymFrame

            def to_csv(self, *a, **k):
                def f(v):
                    if not isinstance(v, T):
                        return v
                    return int(v) if v.k == 'q' and v.args[0].denominator == 1 else format(v, '.17e')
                d = {c: [f(v) for v in self[c]] for c in self.columns}
                return pd.DataFrame(d, index=self.index, columns=self.columns).to_csv(*a, **k)
        _FRAME.append(SymFrame)
    return _FRAME[0]


def _shutil():
    """File operations, below the directory of temporary files only."""
    import shutil
    s = st.ShimModule('shutil')

    def safe(p):
        if not os.path.realpath(p).startswith(os.path.realpath(tempfile.gettempdir()) + os.sep):
            raise Unsupported('file operation outside the scratch directory')
        return p
    s.rmtree = lambda p, *a, **k: shutil.rmtree(safe(p), *a, **k)
    for n in ('copy', 'copyfile', 'copytree', 'move'):
        setattr(s, n, lambda a, b, *r, _n=n, **k: getattr(shutil, _n)(safe(a), safe(b), *r, **k))
    return s


def _pandas():
    s = st.ShimModule('pandas')
    s.DataFrame = lambda *a, **k: _frame()(*a, **k)

    def read_csv(path, **k):
        import pandas
        if set(k) - {'header', 'sep', 'index_col', 'usecols', 'skiprows', 'names'}:
            raise Unsupported('pandas.read_csv options')
        df = pandas.read_csv(path, dtype=str, keep_default_na=False, **k)
        v = df.values
        o = np.empty(v.shape, object)
        for p in np.ndindex(*v.shape):
            try:
                o[p] = _cell(v[p])
            except ValueError:
                o[p] = v[p]
        return _frame()(o, index=df.index, columns=df.columns, dtype=object)
    s.read_csv = read_csv
    return s


class TokInt(int):
    """An arbitrary natural number that also has to be written into names: its decimal text is a token, reading
    the token back gives the same number, and every comparison is a comparison of the symbolic value."""

    def __new__(cls, tok, term):
        o = int.__new__(cls, tok)
        o.term = term
        TOKENS[tok] = o
        return o

    def _t(self, o):
        if isinstance(o, TokInt):
            return o.term
        return lift(o) if isinstance(o, (int, float, T, Fraction)) else None

    __hash__ = int.__hash__

    def _no(self, *a):
        raise Unsupported('arithmetic on an arbitrary integer')
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __mod__ = __floordiv__ = __truediv__ = __neg__ = _no
    __rmod__ = __rfloordiv__ = __rtruediv__ = __pow__ = __abs__ = __bool__ = __divmod__ = _no
    __index__ = int.__index__

    def __deepcopy__(self, memo):
        return self

    __copy__ = lambda self: self


def _tokcmp(op):
    def f(self, o):
        t = self._t(o)
        if t is None:
            return NotImplemented
        if isinstance(o, TokInt) and int.__eq__(self, o):
            return op(0, 0)
        return bool(op(self.term, t))
    return f


for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(TokInt, '__%s__' % _n, _tokcmp(getattr(operator, _n)))
TokInt.__hash__ = int.__hash__


TOKENS = {}


class _IM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)

    def __call__(cls, x=0, *a):
        if isinstance(x, st.SymTensor):
            x = x.item()
        if isinstance(x, TokInt):
            return x
        v = int(x, *a)
        return TOKENS.get(v, v)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class SymInt(metaclass=_IM):
    pass


class _BM(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (bool, SB))

    def __call__(cls, x=False):
        return bool(x)

    def __eq__(cls, o):
        return o is cls or o is bool

    def __hash__(cls):
        return hash(bool)


class SymBool(metaclass=_BM):
    pass


def _isinstance(x, c):
    return isinstance(x, c)


def _type(*a):
    if len(a) == 1:
        if isinstance(a[0], T):
            return SymFloat
        if type(a[0]) is float:
            return SymFloat
        if type(a[0]) is int:
            return SymInt
        if type(a[0]) is bool:
            return SymBool
        return type(a[0])
    return type(*a)


# --------------------------------------------------------------------------------------------- math
def _math():
    import math as m
    s = st.ShimModule('math')

    def lf(f):
        def g(x):
            x = x.item() if isinstance(x, st.SymTensor) else x
            return f(lift(x))
        return g
    s.sqrt = lf(lambda x: tm.root(x, 2))
    for n in ('exp', 'log', 'sin', 'cos', 'tanh', 'acos', 'atan'):
        setattr(s, n, lf(lambda x, n=n: tm.app(n, x)))
    s.tan = lf(lambda x: tm.app('sin', x) / tm.app('cos', x))
    s.pi = st.PI
    s.nan, s.inf = float('nan'), float('inf')
    s.radians = lf(lambda x: x * st.PI / 180)
    s.degrees = lf(lambda x: x * 180 / st.PI)
    s.pow = lambda a, b: tm.power(lift(a), b)
    s.fabs = lf(abs)
    s.isnan = lambda x: isinstance(x, T) and x.k == 'nan' or (isinstance(x, float) and x != x)
    s.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(lift(a) - lift(b)) <= \
        tm.t_max(lift(rel_tol) * tm.t_max(abs(lift(a)), abs(lift(b))), lift(abs_tol))
    for n in ('floor', 'ceil'):
        def f(x, n=n):
            x = lift(x)
            if x.is_const():
                return getattr(m, n)(x.const())
            raise Unsupported('math.' + n)
        setattr(s, n, f)
    s.factorial, s.gcd, s.comb = m.factorial, m.gcd, m.comb
    s.prod = lambda xs: __import__('functools').reduce(lambda a, b: a * b, xs, 1)
    s.hypot = lambda *xs: tm.root(sum((lift(x) * lift(x) for x in xs), tm.ZERO), 2)
    return s


# -------------------------------------------------------------------------------------------- numpy
class SymArr(np.ndarray):
    """Array of terms; as in numpy, a tensor written into it is stored by value."""

    def __setitem__(self, k, v):
        np.ndarray.__setitem__(self, k, SymArr.val(v))

    @staticmethod
    def val(v):
        if isinstance(v, st.SymTensor):
            return v.item() if v.dim() == 0 else v.a
        if isinstance(v, (list, tuple)) and any(isinstance(x, st.SymTensor) for x in v):
            return [SymArr.val(x) for x in v]
        return v


def _numpy():
    s = st.ShimModule('numpy')

    def isint(dt):
        try:
            return dt in (int, bool, SymInt, SymBool) or (dt is not None and dt not in (object, float, SymFloat)
                                                          and np.dtype(dt).kind in 'iub')
        except TypeError:
            return False

    def fix(dt):
        return int if dt is SymInt else bool if dt is SymBool else dt

    def full(shape, fill_value, dtype=None):
        v = fill_value
        if v is None or isinstance(v, str):
            return np.full(shape, v, dtype=object)
        if isint(dtype):
            return np.full(shape, v, dtype=fix(dtype))
        if dtype is None and isinstance(v, (int, bool)) and not isinstance(v, float):
            return np.full(shape, v)
        if dtype is object:
            return np.full(shape, v, dtype=object)
        o = np.empty(shape, object)
        o[...] = lift(v)
        return o.view(SymArr)
    s.zeros = lambda shape, dtype=float: full(shape, 0.0 if not isint(dtype) else 0, dtype if isint(dtype) or dtype is object else float)
    s.ones = lambda shape, dtype=float: full(shape, 1.0 if not isint(dtype) else 1, dtype if isint(dtype) or dtype is object else float)
    s.empty = s.zeros
    s.full = full

    def obj_any(x):
        if isinstance(x, (T, float, np.floating)):
            return True
        if isinstance(x, np.ndarray):
            return x.dtype == object or x.dtype.kind == 'f'
        if isinstance(x, st.SymTensor):
            raise Unsupported('tensor to numpy')
        if isinstance(x, (list, tuple)):
            return any(obj_any(v) for v in x)
        return False

    def scalars(x):
        # numpy reads a list of 0-d tensors as the list of their values
        if isinstance(x, (list, tuple)):
            return [scalars(v) for v in x]
        if isinstance(x, st.SymTensor) and x.dim() == 0:
            return x.item()
        return x

    def array(x, dtype=None, copy=True):
        x = scalars(x) if isinstance(x, (list, tuple)) else x
        if isint(dtype):
            return np.array(x, dtype=fix(dtype))
        if obj_any(x) or dtype in (float, SymFloat):
            a = np.array(x, dtype=object)
            return _liftn(a)
        return np.array(x)

    def _liftn(a):
        o = np.empty(a.shape, object)
        for p in np.ndindex(*a.shape):
            v = lift(a[p])
            o[p] = a[p] if v is None else v
        return o
    s.array = s.asarray = array
    s.atleast_1d = lambda x: np.atleast_1d(array(x))
    s.eye = lambda n, m=None, dtype=float: _liftn(np.eye(n, m)) if not isint(dtype) else np.eye(n, m, dtype=fix(dtype))
    s.identity = s.eye
    s.zeros_like = lambda x, dtype=None: s.zeros(np.shape(x)) if obj_any(x) else np.zeros_like(x)
    s.ones_like = lambda x, dtype=None: s.ones(np.shape(x)) if obj_any(x) else np.ones_like(x)

    def f1(f):
        g = np.frompyfunc(lambda v: f(lift(v)), 1, 1)

        def h(x, *a, **k):
            if not isinstance(x, (list, tuple, np.ndarray)) and lift(x) is not None:
                return f(lift(x))
            r = g(array(x) if isinstance(x, (list, tuple)) else x)
            return r
        return h
    s.sqrt = f1(lambda v: tm.root(v, 2))
    for n in ('exp', 'log', 'sin', 'cos', 'tanh'):
        setattr(s, n, f1(lambda v, n=n: tm.app(n, v)))
    s.abs = f1(abs)
    s.absolute = s.abs
    s.radians = s.deg2rad = f1(lambda v: v * st.PI / 180)
    s.degrees = f1(lambda v: v * 180 / st.PI)
    s.isnan = np.frompyfunc(lambda v: isinstance(v, T) and v.k == 'nan', 1, 1)
    s.sum = lambda x, axis=None, **k: np.sum(array(x), axis=axis)
    s.mean = lambda x, axis=None: np.sum(array(x), axis=axis) / tm.q(array(x).size if axis is None else array(x).shape[axis])

    def norm(x, ord=None, axis=None):
        if ord not in (None, 2, 'fro'):
            raise Unsupported('numpy norm')
        x = array(x)
        if axis is None:
            acc = tm.ZERO
            for v in x.reshape(-1):
                acc = acc + lift(v) * lift(v)
            return tm.root(acc, 2)
        return s.sqrt(np.sum(x * x, axis=axis))

    def det(x):
        return st._det(x)

    def inv(x):
        return st.inverse(st.SymTensor(x)).a

    def solve(a, b):
        b = array(b)
        return np.matmul(inv(array(a)), b)
    s.linalg = st._ns('numpy.linalg', norm=norm, det=det, inv=inv, solve=solve)
    for n in ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'append', 'tile', 'transpose', 'reshape',
              'matmul', 'dot', 'outer', 'einsum', 'diff', 'flipud', 'cross', 'trace', 'delete', 'copy', 'arange',
              'ndarray', 'integer', 'floating', 'number', 'int64', 'int32', 'float64', 'float32', 'bool_', 'ndindex',
              'newaxis', 'inf', 'add', 'repeat', 'ravel', 'expand_dims', 'squeeze', 'swapaxes', 'unique', 'sort',
              'argsort', 'where', 'any', 'all', 'cumsum', 'diag', 'multiply', 'subtract', 'prod', 'array_equal',
              'shape', 'ndim', 'size', 'triu_indices', 'tril_indices', 'meshgrid', 'broadcast_to', 'max', 'min',
              'maximum', 'minimum', 'argmax', 'argmin', 'isin', 'setdiff1d', 'intersect1d', 'dtype', 'nonzero',
              'searchsorted', 'tensordot', 'kron', 'split', 'array_split', 'moveaxis', 'roll', 'flip', 'linspace'):
        setattr(s, n, getattr(np, n))
    def plain_arrays(real):
        def conv(x):
            if isinstance(x, st.SymTensor):
                return x.a
            if isinstance(x, (list, tuple)):
                return type(x)(conv(y) for y in x) if type(x) in (list, tuple) else x
            return x

        def h(*a, **k):
            return real(*[conv(x) for x in a], **k)
        return h
    for n in ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'append'):
        setattr(s, n, plain_arrays(getattr(np, n)))
    s.nan = float('nan')
    s.pi = st.PI

    def linspace(start, stop, num=50, endpoint=True, dtype=None):
        a, b, num = start, stop, int(num)
        a, b = lift(a), lift(b)
        o = np.empty((num,), object)
        for i in range(num):
            d = (num - 1) if endpoint else num
            o[i] = a + (b - a) * tm.q(Fraction(i, d)) if d else a
        return o
    s.linspace = linspace
    def red(real, f):
        def h(x, axis=None, **k):
            a = array(x) if isinstance(x, (list, tuple)) else x
            if isinstance(a, np.ndarray) and a.dtype == object and axis is None and not k:
                v = [lift(y) for y in a.reshape(-1)]
                if v and all(isinstance(y, T) for y in v):
                    r = v[0]
                    for y in v[1:]:
                        r = f(r, y)
                    return r
            return real(a, axis=axis, **k)
        return h
    s.max = s.amax = red(np.max, tm.t_max)
    s.min = s.amin = red(np.min, tm.t_min)

    def bin_(real, f):
        g = np.frompyfunc(lambda a, b: f(lift(a), lift(b)), 2, 1)

        def h(a, b):
            if obj_any(a) or obj_any(b):
                if not isinstance(a, (np.ndarray, list, tuple)) and not isinstance(b, (np.ndarray, list, tuple)):
                    return f(lift(a), lift(b))
                return g(array(a) if isinstance(a, (list, tuple)) else a, array(b) if isinstance(b, (list, tuple)) else b)
            return real(a, b)
        return h
    s.maximum, s.minimum = bin_(np.maximum, tm.t_max), bin_(np.minimum, tm.t_min)

    def clip(x, lo, hi):
        return s.minimum(s.maximum(x, lo), hi)
    s.clip = clip

    def isclose(a, b, rtol=1e-5, atol=1e-8):
        if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray) and lift(a) is not None and lift(b) is not None:
            return st._close(lift(a), lift(b), rtol, atol)
        return np.frompyfunc(lambda x, y: st._close(x, y, rtol, atol), 2, 1)(a, b)
    s.isclose = isclose
    s.allclose = lambda a, b, rtol=1e-5, atol=1e-8: all(bool(v) for v in np.atleast_1d(s.isclose(a, b, rtol, atol)).reshape(-1))
    s.random = st._ns('numpy.random', seed=lambda *a, **k: None)

    def polyfit(x, y, deg):
        # exact least squares fit; the abscissae are constants, so the fit is linear in the ordinates
        x = [lift(v) for v in x]
        y = [lift(v) for v in y]
        if not all(v.is_const() for v in x) or len(x) < deg + 1:
            raise Unsupported('polynomial fit of symbolic abscissae')
        x = [Fraction(v.const()) for v in x]
        V = [[v ** (deg - j) for j in range(deg + 1)] for v in x]
        n = deg + 1
        A = [[sum(r[i] * r[j] for r in V) for j in range(n)] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        for c in range(n):
            p = next((r for r in range(c, n) if A[r][c] != 0), None)
            if p is None:
                raise Unsupported('rank deficient polynomial fit')
            A[c], A[p] = A[p], A[c]
            A[c] = [v / A[c][c] for v in A[c]]
            for r in range(n):
                if r != c and A[r][c] != 0:
                    A[r] = [a - A[r][c] * b for a, b in zip(A[r], A[c])]
        o = np.empty((n,), object)
        for i in range(n):
            acc = tm.ZERO
            for k in range(len(x)):
                w = sum(A[i][n + j] * V[k][j] for j in range(n))
                acc = acc + tm.q(w) * y[k]
            o[i] = acc
        return o
    s.polyfit = polyfit

    def polyval(c, x):
        acc = tm.ZERO
        for v in c:
            acc = acc * x + lift(v)
        return acc
    s.polyval = polyval
    s.poly1d = lambda c: (lambda x: polyval(c, x))
    def rnd(n):
        def f1c(v):
            v = lift(v)
            if v is None or not v.is_const():
                raise Unsupported('numpy.%s of a symbolic value' % n)
            return lift(getattr(__import__('math'), n)(v.const()))
        g = np.frompyfunc(f1c, 1, 1)

        def h(x):
            if isinstance(x, (int, float, np.integer, np.floating)) or (isinstance(x, np.ndarray) and x.dtype != object):
                return getattr(np, n)(x)
            return g(x)
        return h
    s.floor, s.ceil = rnd('floor'), rnd('ceil')
    s.average = lambda x, axis=None: s.mean(x, axis=axis)
    s.genfromtxt = genfromtxt
    for n in ('arctan2', 'median', 'std', 'var'):
        setattr(s, n, st.Missing('numpy.' + n))
    return s


# -------------------------------------------------------------------------------------------- loader
class Loader:
    def __init__(self, root=None, cut_modules=('simulators.fetorch.material.models',)):
        self.root = root or ROOT
        self.mods = {}
        self.cut_modules = cut_modules
        self.torch = st.build()
        rnd = st.ShimModule('random')
        rnd.seed = lambda *a, **k: None
        for n in ('random', 'uniform', 'sample', 'choice', 'choices', 'randint', 'shuffle', 'gauss'):
            setattr(rnd, n, st.Missing('random.' + n))
        pk = st.ShimModule('pickle')
        pk.dump, pk.load = st.pickle_dump, st.pickle_load
        self.shims = {'pickle': pk, 'torch': self.torch, 'numpy': _numpy(), 'pandas': _pandas(), 'shutil': _shutil(), 'math': _math(), 'random': rnd}
        self.overrides = {}
        self.sources = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins.update({'__import__': self._import, 'float': SymFloat, 'int': SymInt, 'bool': SymBool,
                              'type': _type, 'print': lambda *a, **k: None, 'open': self._open,
                              'vf_loop_': LoopToken, 'round': self._round, 'abs': abs})

    @staticmethod
    def _open(path, *a, **k):
        if os.path.abspath(str(path)).startswith(tempfile.gettempdir() + os.sep):
            return open(path, *a, **k)
        raise Unsupported('file access')

    @staticmethod
    def _round(x, n=None):
        if isinstance(x, T):
            if x.is_const():
                return round(x.const(), n) if n is not None else round(x.const())
            raise Unsupported('round')
        return round(x, n) if n is not None else round(x)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)]
            name = '.'.join(base + ([name] if name else []))
        top = name.split('.')[0]
        if top in HOOKE:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except FileNotFoundError:
                            raise ImportError('cannot import name %r from %r' % (f, name))
                return m
            return self.load(top)
        if top == 'torch':
            if name == 'torch':
                return self.torch
            m = self.torch
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            if not fromlist:
                return self.torch
            return m
        if top in self.shims:
            return self.shims[top]
        if top == 'tqdm':
            return TQDM
        if top in REAL:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        return st.Missing(name if fromlist else top)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if name.startswith('ioput') and name != 'ioput.iostandard':
            m = _StubMod(name)
            self.mods[name] = m
            return m
        path = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(path):
            f = os.path.join(path, '__init__.py')
            is_pkg = True
        else:
            f = path + '.py'
            is_pkg = False
        if not os.path.exists(f):
            if is_pkg:
                src = ''
            else:
                raise FileNotFoundError(name)
        else:
            src = open(f).read()
        m = types.ModuleType(name)
        m.__file__ = f
        m.__package__ = name if is_pkg else name.rpartition('.')[0]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if '.' in name:
            parent, _, leaf = name.rpartition('.')
            p = self.load(parent)
            setattr(p, leaf, m)
        self.sources[name] = f
        tree = ast.parse(src, f)
        if any(name.startswith(c) for c in self.cut_modules):
            tree = LoopCutter().visit(tree)
            ast.fix_missing_locations(tree)
        for key, v in self.overrides.items():
            pass
        try:
            exec(compile(tree, f, 'exec'), m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        for key, v in self.overrides.items():
            mod, _, fn = key.partition(':')
            if mod == name:
                m.__dict__[fn] = v
        return m


# progress bar: iterates over its argument (nothing else of it is used)
TQDM = types.ModuleType('tqdm')
TQDM.tqdm = lambda it=(), *a, **k: iter(it)
TQDM.tqdm.write = lambda *a, **k: None


class _StubMod(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return st.Missing(self.__name__ + '.' + k)
