"""Abstract arrays: exact shape/dtype/weak-type/traced-ness, abstract elements."""

import builtins
import math

import numpy as np

from . import elem
from . import poly
from .errors import ModelError, TracerLeak, Unsupported

# ------------------------------------------------------------------ dtypes
_KIND = {'bool': 0, 'uint8': 1, 'uint16': 1, 'uint32': 1, 'uint64': 1,
         'int8': 1, 'int16': 1, 'int32': 1, 'int64': 1,
         'bfloat16': 2, 'float16': 2, 'float32': 2, 'float64': 2,
         'complex64': 3, 'complex128': 3, 'object': 4, 'key': 5}
_BITS = {'bool': 1, 'uint8': 8, 'int8': 8, 'uint16': 16, 'int16': 16, 'uint32': 32,
         'int32': 32, 'uint64': 64, 'int64': 64, 'bfloat16': 16, 'float16': 16,
         'float32': 32, 'float64': 64, 'complex64': 64, 'complex128': 128}
X64 = [False]


class DType:
  _cache = {}

  def __new__(cls, name):
    o = cls._cache.get(name)
    if o is None:
      o = object.__new__(cls)
      o.name = name
      cls._cache[name] = o
    return o

  @property
  def kind(self):
    n = self.name
    if n == 'bool':
      return 'b'
    if n.startswith('uint'):
      return 'u'
    if n.startswith('int'):
      return 'i'
    if n.startswith('complex'):
      return 'c'
    return 'f'

  @property
  def itemsize(self):
    return builtins.max(1, _BITS[self.name] // 8)

  @property
  def type(self):
    return self

  @property
  def dtype(self):
    return self

  def __call__(self, x=0):
    return asarr(x).astype(self)

  def __eq__(self, o):
    if isinstance(o, DType):
      return self.name == o.name
    try:
      return self.name == todtype(o).name
    except Exception:
      return False

  def __ne__(self, o):
    return not self == o

  def __hash__(self):
    return hash(self.name)

  def __repr__(self):
    return self.name

  __str__ = __repr__


class DKind:
  """Abstract scalar category, e.g. jnp.floating."""

  def __init__(self, name, kinds):
    self.name = name
    self.kinds = kinds

  def __repr__(self):
    return self.name


FLOATING = DKind('floating', 'f')
INTEGER = DKind('integer', 'iu')
SIGNED = DKind('signedinteger', 'i')
UNSIGNED = DKind('unsignedinteger', 'u')
INEXACT = DKind('inexact', 'fc')
NUMBER = DKind('number', 'fciu')
COMPLEXF = DKind('complexfloating', 'c')
GENERIC = DKind('generic', 'fciub')

F32 = DType('float32')
F64 = DType('float64')
I32 = DType('int32')
I64 = DType('int64')
BOOL = DType('bool')
OBJ = DType('object')


def todtype(d, np_=False):
  if isinstance(d, DType):
    return d
  if d is float:
    return F64
  if d is int:
    return I64
  if d is bool:
    return BOOL
  if d is complex:
    return DType('complex128')
  if d is object:
    return OBJ
  if isinstance(d, str):
    if d in _KIND:
      return DType(d)
    m = {'float': 'float64', 'int': 'int64', 'f4': 'float32', 'f8': 'float64',
         'i4': 'int32', 'i8': 'int64', 'complex': 'complex128'}
    if d in m:
      return DType(m[d])
  if isinstance(d, DKind):
    if d is FLOATING:
      return F64
    if d is INTEGER:
      return I64
  if isinstance(d, Arr):
    return d.dtype
  raise TypeError(f'not a dtype: {d!r}')


def canon(d):
  d = todtype(d)
  if X64[0]:
    return d
  return DType({'float64': 'float32', 'int64': 'int32', 'uint64': 'uint32',
                'complex128': 'complex64'}.get(d.name, d.name))


def pytype(x):
  if isinstance(x, bool):
    return BOOL, False
  if isinstance(x, int):
    return (I64 if X64[0] else I32), True
  if isinstance(x, float):
    return (F64 if X64[0] else F32), True
  if isinstance(x, complex):
    return DType('complex64'), True
  if isinstance(x, elem.Elem) or isinstance(x, poly.Poly):
    return (F64 if X64[0] else F32), True
  raise TypeError(f'no dtype for {x!r}')


def promote2(d1, w1, d2, w2):
  if d1 is d2:
    return d1, w1 and w2
  k1, k2 = _KIND[d1.name], _KIND[d2.name]
  if w1 and w2:
    return (d1 if k1 >= k2 else d2), True
  if w1 != w2:
    dw, ds = (d1, d2) if w1 else (d2, d1)
    kw, ks = _KIND[dw.name], _KIND[ds.name]
    if kw <= ks:
      return ds, False
    if ks == 0 or kw == 2 and ks == 1:
      return dw, True
    if kw == 3 and ks == 2:
      return DType('complex128' if ds.name == 'float64' else 'complex64'), False
    return dw, True
  if k1 != k2:
    return (d1, False) if k1 > k2 else (d2, False)
  b1, b2 = _BITS[d1.name], _BITS[d2.name]
  if k1 == 2 and b1 == b2 == 16:
    return F32, False
  if k1 == 1 and d1.kind != d2.kind:
    s = builtins.max(b1 if d1.kind == 'i' else 2 * b1, b2 if d2.kind == 'i' else 2 * b2)
    return canon(DType(f'int{builtins.min(s, 64)}')), False
  return (d1 if b1 >= b2 else d2), False


class FInfo:
  _v = {
      'float32': dict(eps=2.0 ** -23, epsneg=2.0 ** -24, tiny=2.0 ** -126,
                      max=3.4028234663852886e38, min=-3.4028234663852886e38, bits=32),
      'float64': dict(eps=2.0 ** -52, epsneg=2.0 ** -53, tiny=2.0 ** -1022,
                      max=1.7976931348623157e308, min=-1.7976931348623157e308, bits=64),
      'float16': dict(eps=2.0 ** -10, epsneg=2.0 ** -11, tiny=2.0 ** -14,
                      max=65504.0, min=-65504.0, bits=16),
      'bfloat16': dict(eps=2.0 ** -7, epsneg=2.0 ** -8, tiny=2.0 ** -126,
                       max=3.3895313892515355e38, min=-3.3895313892515355e38, bits=16),
  }

  def __init__(self, d):
    d = todtype(d)
    if d.kind != 'f':
      raise ValueError(f'finfo of non-float dtype {d}')
    self.dtype = d
    v = self._v[d.name]
    for k in ('eps', 'epsneg', 'tiny', 'max', 'min'):
      setattr(self, k, Arr(_full((), v[k]), d, False, False, np_=True))
    self.smallest_normal = self.tiny
    self.resolution = self.eps
    self.bits = v['bits']


class IInfo:

  def __init__(self, d):
    d = todtype(d)
    if d.kind not in 'iu':
      raise ValueError(f'iinfo of non-integer dtype {d}')
    self.dtype = d
    b = _BITS[d.name]
    self.max = 2 ** (b - 1) - 1 if d.kind == 'i' else 2 ** b - 1
    self.min = -2 ** (b - 1) if d.kind == 'i' else 0
    self.bits = b


# ------------------------------------------------------------------ events
class Events:
  """Facts recorded during one abstract run."""

  def __init__(self):
    self.leaks = []       # python control flow / conversion on traced data
    self.contractions = []  # (function, loc, precision)
    self.params = []
    self.warn = []
    self.rng = []
    self.jvp_calls = []   # (custom derivative, arguments)
    self.numpy_on_traced = []
    self.casts = set()    # (parameter path, dtype name): conversions of untouched parameters


EV = Events()


def reset_events():
  global EV
  EV = Events()
  return EV


def events():
  return EV


def leak(what):
  EV.leaks.append((what, poly.LOC[0]))


# ------------------------------------------------------------------ helpers
def _full(shape, v):
  a = np.empty(shape, dtype=object)
  a[...] = v
  return a


def _obj(x):
  if isinstance(x, np.ndarray) and x.dtype == object:
    return x
  a = np.empty((), dtype=object)
  a[()] = x
  return a


_uf = {}


def ufunc(f, n):
  u = _uf.get((f, n))
  if u is None:
    u = np.frompyfunc(f, n, 1)
    _uf[(f, n)] = u
  return u


def apply(f, *xs):
  try:
    with np.errstate(all='ignore'):
      r = ufunc(f, len(xs))(*xs)
  except ValueError as e:
    if 'broadcast' in str(e):
      raise ModelError(f'incompatible shapes for broadcasting: '
                       f'{[np.shape(x) for x in xs]}') from e
    raise
  return _obj(r)


def topy(v):
  """numpy scalar -> python scalar."""
  if isinstance(v, np.generic):
    return v.item()
  return v


# inside a just-in-time compiled function every array the library creates is staged,
# except within jax.ensure_compile_time_eval
STAGED = [False]


class Arr:
  __slots__ = ('a', 'dtype', 'weak', 'traced', 'np_', 'tag')
  __array_priority__ = 1000
  __array_ufunc__ = None

  def __init__(self, a, dtype, weak=False, traced=False, np_=False, tag=None):
    self.a = a
    self.dtype = dtype
    self.weak = weak
    self.traced = traced or STAGED[0] and not np_
    self.np_ = np_
    self.tag = tag

  # -- structure
  @property
  def shape(self):
    return tuple(int(s) for s in self.a.shape)

  @property
  def ndim(self):
    return self.a.ndim

  @property
  def size(self):
    return int(self.a.size)

  @property
  def T(self):
    return self._w(self.a.T)

  @property
  def mT(self):
    return self._w(np.swapaxes(self.a, -1, -2))

  @property
  def at(self):
    return _At(self)

  @property
  def real(self):
    return self

  @property
  def aval(self):
    return self

  @property
  def weak_type(self):
    return self.weak

  @property
  def flat(self):
    return iter(self.reshape(-1))

  @property
  def nbytes(self):
    return self.size * self.dtype.itemsize

  @property
  def itemsize(self):
    return self.dtype.itemsize

  def _w(self, a):
    return Arr(_obj(a), self.dtype, self.weak, self.traced, self.np_)

  def __repr__(self):
    return f'Arr{self.shape}:{self.dtype}'

  def _text(self):
    # a known scalar prints as its value
    if self.a.ndim == 0 and not self.traced and not elem.is_abs(self.a[()]):
      return self.a[()]
    return None

  def __str__(self):
    v = self._text()
    return repr(self) if v is None else str(v)

  def __len__(self):
    if self.a.ndim == 0:
      raise TypeError('len() of unsized object')
    return self.a.shape[0]

  def __iter__(self):
    if self.a.ndim == 0:
      raise TypeError('iteration over a 0-d array')
    for i in range(self.a.shape[0]):
      yield self[i]

  def __hash__(self):
    if self.a.ndim == 0 and not self.traced and self.np_:
      return hash(self.a[()])
    raise TypeError("unhashable type: 'Array'")

  # -- concretisation
  def is_const(self):
    return all(not elem.is_abs(v) for v in self.a.flat)

  def _scalar(self, what):
    if self.a.size != 1:
      raise TypeError(f'only size-1 arrays can be converted to python scalars ({what})')
    v = self.a.reshape(-1)[0]
    if elem.is_abs(v) and BOOL_HOOK[0] is not None:
      return BOOL_HOOK[0](v)
    if self.traced:
      leak(what)
    if elem.is_abs(v):
      if self.traced:
        raise TracerLeak(what, poly.LOC[0])
      raise Unsupported(f'{what} of an abstract value', poly.LOC[0])
    return v

  def __bool__(self):
    return bool(self._scalar('bool() of a traced array (Python control flow)'))

  def __int__(self):
    return int(self._scalar('int() of a traced array'))

  def __float__(self):
    return float(self._scalar('float() of a traced array'))

  def __complex__(self):
    return complex(self._scalar('complex() of a traced array'))

  def __index__(self):
    if _KIND[self.dtype.name] > 1:
      raise TypeError('only integer arrays can be converted to an index')
    return int(self._scalar('use of a traced array as a static index'))

  def __format__(self, spec):
    v = self._text()
    return 'Array' if v is None else format(v, spec)

  def __round__(self, n=0):
    return self.round(n)

  def item(self, *args):
    return self._scalar('.item() of a traced array')

  def tolist(self):
    if self.traced:
      leak('.tolist() of a traced array')
    return self.a.tolist()

  def block_until_ready(self):
    return self

  # -- arithmetic
  def _bin(self, o, f, kind='num', swap=False):
    o = asarr_operand(o)
    if o is NotImplemented:
      return NotImplemented
    x, y = (o, self) if swap else (self, o)
    r = apply(f, x.a, y.a)
    tr = x.traced or y.traced
    np_ = x.np_ and y.np_
    if kind == 'cmp':
      return Arr(r, BOOL, False, tr, np_)
    d, w = promote2(x.dtype, x.weak, y.dtype, y.weak)
    if kind == 'div' and _KIND[d.name] < 2:
      d = F64 if X64[0] else F32
    if kind == 'num' and d is BOOL:
      pass
    return Arr(r, d, w, tr, np_)

  def __add__(self, o):
    return self._bin(o, elem.add)

  def __radd__(self, o):
    return self._bin(o, elem.add, swap=True)

  def __sub__(self, o):
    return self._bin(o, _sub)

  def __rsub__(self, o):
    return self._bin(o, _sub, swap=True)

  def __mul__(self, o):
    return self._bin(o, elem.mul)

  def __rmul__(self, o):
    return self._bin(o, elem.mul, swap=True)

  def __truediv__(self, o):
    return self._bin(o, elem.div, 'div')

  def __rtruediv__(self, o):
    return self._bin(o, elem.div, 'div', swap=True)

  def __floordiv__(self, o):
    return self._bin(o, _floordiv)

  def __rfloordiv__(self, o):
    return self._bin(o, _floordiv, swap=True)

  def __mod__(self, o):
    return self._bin(o, _mod)

  def __rmod__(self, o):
    return self._bin(o, _mod, swap=True)

  def __divmod__(self, o):
    return self // o, self % o

  def __pow__(self, o):
    return self._bin(o, _pow)

  def __rpow__(self, o):
    return self._bin(o, _pow, swap=True)

  def __matmul__(self, o):
    return matmul(self, asarr(o))

  def __rmatmul__(self, o):
    return matmul(asarr(o), self)

  def __neg__(self):
    return self._w(apply(elem.neg, self.a))

  def __pos__(self):
    return self

  def __abs__(self):
    return self._w(apply(_abs, self.a))

  def __invert__(self):
    if self.dtype is BOOL:
      return self._w(apply(elem.lnot, self.a))
    return self._w(apply(lambda v: ~v, self.a))

  def __and__(self, o):
    return self._bin(o, _bitand)

  __rand__ = __and__

  def __or__(self, o):
    return self._bin(o, _bitor)

  __ror__ = __or__

  def __xor__(self, o):
    return self._bin(o, _bitxor)

  __rxor__ = __xor__

  def __lshift__(self, o):
    return self._bin(o, lambda a, b: a << b)

  def __rshift__(self, o):
    return self._bin(o, lambda a, b: a >> b)

  def __lt__(self, o):
    return self._bin(o, elem.lt, 'cmp')

  def __le__(self, o):
    return self._bin(o, elem.le, 'cmp')

  def __gt__(self, o):
    return self._bin(o, lambda a, b: elem.lt(b, a), 'cmp')

  def __ge__(self, o):
    return self._bin(o, lambda a, b: elem.le(b, a), 'cmp')

  def __eq__(self, o):
    r = self._bin(o, elem.eq, 'cmp')
    return r

  def __ne__(self, o):
    r = self._bin(o, elem.ne, 'cmp')
    return r

  # -- methods
  def astype(self, d, copy=True):
    d = todtype(d)
    if not self.np_:
      d = canon(d)
    a = self.a
    if d.kind in 'fV' and self.traced:
      q = pure_parameter(a)
      if q:
        EV.casts.add((q, d.name))
    if d.name == 'bool' and self.dtype is not BOOL:
      a = apply(elem.truth, a)
    elif d.kind in 'iu' and self.dtype.kind == 'f':
      a = apply(_toint, a)
    elif d.kind == 'f' and self.dtype.kind in 'biu':
      a = apply(_tofloat, a)
    elif d.kind in 'iu' and self.dtype is BOOL:
      a = apply(_b2i, a)
    else:
      a = a.copy() if self.np_ else a
    return Arr(a, d, False, self.traced, self.np_)

  def reshape(self, *shape, order='C'):
    if len(shape) == 1 and isinstance(shape[0], (tuple, list, Arr)):
      shape = tuple(shape[0])
    shape = tuple(int(s) if not isinstance(s, int) else s for s in shape)
    try:
      return self._w(self.a.reshape(shape))
    except ValueError as e:
      raise ModelError(f'cannot reshape array of shape {self.shape} into shape {shape}') from e

  def ravel(self, order='C'):
    return self._w(self.a.reshape(-1))

  def flatten(self, order='C'):
    return self.ravel()

  def squeeze(self, axis=None):
    return squeeze(self, axis)

  def transpose(self, *axes):
    if len(axes) == 1 and (axes[0] is None or isinstance(axes[0], (tuple, list))):
      axes = axes[0]
    if not axes:
      axes = None
    return self._w(np.transpose(self.a, axes))

  def swapaxes(self, a, b):
    return self._w(np.swapaxes(self.a, a, b))

  def copy(self):
    return Arr(self.a.copy(), self.dtype, self.weak, self.traced, self.np_)

  def sum(self, axis=None, dtype=None, keepdims=False, where=None, initial=None):
    return reduce('sum', self, axis, keepdims, where, initial, dtype)

  def prod(self, axis=None, dtype=None, keepdims=False, where=None, initial=None):
    return reduce('prod', self, axis, keepdims, where, initial, dtype)

  def max(self, axis=None, keepdims=False, where=None, initial=None):
    return reduce('max', self, axis, keepdims, where, initial)

  def min(self, axis=None, keepdims=False, where=None, initial=None):
    return reduce('min', self, axis, keepdims, where, initial)

  def mean(self, axis=None, dtype=None, keepdims=False, where=None):
    return mean(self, axis, keepdims, where)

  def all(self, axis=None, keepdims=False):
    return reduce('all', self, axis, keepdims)

  def any(self, axis=None, keepdims=False):
    return reduce('any', self, axis, keepdims)

  def trace(self, offset=0, axis1=0, axis2=1):
    return trace(self, offset, axis1, axis2)

  def diagonal(self, offset=0, axis1=0, axis2=1):
    return self._w(np.diagonal(self.a, offset, axis1, axis2))

  def dot(self, o):
    return dot(self, asarr(o))

  def take(self, idx, axis=None, **kw):
    return take(self, idx, axis, **kw)

  def repeat(self, repeats, axis=None, total_repeat_length=None):
    return repeat(self, repeats, axis, total_repeat_length)

  def clip(self, min=None, max=None):
    return clip(self, min, max)

  def round(self, decimals=0):
    if decimals == 0:
      return self._w(apply(lambda v: elem.fn('round', v) if isinstance(v, float) or elem.is_abs(v) else v, self.a))
    raise Unsupported('round with decimals')

  def conj(self):
    return self

  def cumsum(self, axis=None):
    return cumulative(self, axis, elem.add)

  def cumprod(self, axis=None):
    return cumulative(self, axis, elem.mul)

  def nonzero(self):
    return nonzero(self)

  def argmax(self, axis=None):
    return argext(self, axis, 'max')

  def argmin(self, axis=None):
    return argext(self, axis, 'min')

  def fill(self, v):
    if not self.np_:
      raise AttributeError('fill')
    self.a[...] = topy(v.a[()] if isinstance(v, Arr) else v)

  # -- indexing
  def __getitem__(self, idx):
    ix, tr = conv_index(self, idx)
    try:
      r = self.a[ix]
    except IndexError as e:
      raise
    return Arr(_obj(r), self.dtype, self.weak, self.traced or tr, self.np_)

  def __setitem__(self, idx, v):
    if not self.np_:
      raise TypeError("'Array' object does not support item assignment. JAX arrays are immutable.")
    ix, _ = conv_index(self, idx, clamp=False)
    if isinstance(v, (list, tuple)):
      v = asarr(v, np_=True)
    if isinstance(v, Arr):
      if v.traced:
        EV.numpy_on_traced.append(('assignment of a traced value into a numpy array', poly.LOC[0]))
      val = v.a if v.a.ndim else v.a[()]
    else:
      val = v
    if isinstance(val, np.ndarray) or not hasattr(val, '__len__'):
      try:
        self.a[ix] = val
      except ValueError as e:
        raise ModelError(str(e)) from e
    else:
      self.a[ix] = val
    on_write(self)


def on_write(arr):
  """Hook: a numpy-flavoured array was mutated in place."""
  for h in WRITE_HOOKS:
    h(arr)


WRITE_HOOKS = []
BOOL_HOOK = [None]      # decides the conversion of an abstract value to a Python value


def _sub(a, b):
  if isinstance(a, bool):
    a = int(a)
  if isinstance(b, bool):
    b = int(b)
  return a - b


def _floordiv(a, b):
  return elem.fn('floordiv', a, b)


def _mod(a, b):
  return elem.fn('mod', a, b)


def _pow(a, b):
  if elem.is_abs(a) and not elem.is_abs(b):
    return a ** b
  return elem.fn('pow', a, b)


def _abs(a):
  return elem.fn('abs', a) if elem.is_abs(a) else abs(a)


def _toint(v):
  return elem.fn('trunc', v) if elem.is_abs(v) else int(v)


def _tofloat(v):
  return v if elem.is_abs(v) else float(v)


def _b2i(v):
  return v if elem.is_abs(v) else int(v)


def _isb(v):
  return isinstance(v, (bool, np.bool_))


def _bitand(a, b):
  if elem.is_abs(a) or elem.is_abs(b) or (_isb(a) and _isb(b)):
    return elem.land(a, b)
  return a & b


def _bitor(a, b):
  if elem.is_abs(a) or elem.is_abs(b) or (_isb(a) and _isb(b)):
    return elem.lor(a, b)
  return a | b


def _bitxor(a, b):
  if elem.is_abs(a) or elem.is_abs(b):
    return a ^ b
  return a ^ b


class _At:

  def __init__(self, arr):
    self.arr = arr

  def __getitem__(self, idx):
    return _AtIdx(self.arr, idx)


class _AtIdx:

  def __init__(self, arr, idx):
    self.arr = arr
    self.idx = idx

  def _upd(self, v, f, kw):
    x = self.arr
    v = asarr(v)
    ix, tr = conv_index(x, self.idx, clamp=False, drop=True)
    a = x.a.copy()
    pos = np.arange(a.size).reshape(a.shape)
    keep = None
    if isinstance(ix, tuple) and ix and isinstance(ix[0], str):
      _, ix, keep = ix
    p = pos[ix]
    try:
      val = np.broadcast_to(v.a, p.shape)
    except ValueError as e:
      raise ModelError(f'cannot broadcast update of shape {v.shape} to {p.shape}') from e
    if keep is not None:
      keep = np.broadcast_to(keep, p.shape)
    flat = a.reshape(-1)
    pf = np.asarray(p).reshape(-1)
    vf = val.reshape(-1)
    kf = keep.reshape(-1) if keep is not None else None
    for i in range(pf.size):
      if kf is not None and not kf[i]:
        continue
      q = int(pf[i])
      flat[q] = vf[i] if f is None else f(flat[q], vf[i])
    return Arr(flat.reshape(x.a.shape), x.dtype, x.weak, x.traced or v.traced or tr, x.np_)

  def set(self, v, **kw):
    return self._upd(v, None, kw)

  def add(self, v, **kw):
    return self._upd(v, elem.add, kw)

  def subtract(self, v, **kw):
    return self._upd(v, _sub, kw)

  def multiply(self, v, **kw):
    return self._upd(v, elem.mul, kw)

  mul = multiply

  def divide(self, v, **kw):
    return self._upd(v, elem.div, kw)

  def power(self, v, **kw):
    return self._upd(v, _pow, kw)

  def max(self, v, **kw):
    return self._upd(v, lambda a, b: elem.fn('max', a, b), kw)

  def min(self, v, **kw):
    return self._upd(v, lambda a, b: elem.fn('min', a, b), kw)

  def get(self, **kw):
    mode = kw.get('mode')
    if mode == 'fill':
      return take_fill(self.arr, self.idx, kw.get('fill_value'))
    return self.arr[self.idx]

  def apply(self, f, **kw):
    x = self.arr
    sub = x[self.idx]
    return self.set(f(sub))


def conv_index(x, idx, clamp=True, drop=False):
  """Converts an index expression to a numpy index; returns (index, traced)."""
  tr = False
  if not isinstance(idx, tuple):
    idx = (idx,)
  out = []
  for i in idx:
    if isinstance(i, Arr):
      if i.dtype is BOOL and i.traced:
        leak('indexing with a traced boolean mask (data-dependent shape)')
      if i.ndim == 0 and not i.traced:
        v = i.a[()]
        if elem.is_abs(v):
          raise Unsupported('abstract index', poly.LOC[0])
        if _isb(v):
          out.append(bool(v))
        else:
          out.append(int(v))
        continue
      tr = tr or i.traced
      if not i.is_const():
        raise Unsupported('gather with abstract indices', poly.LOC[0])
      if _KIND[i.dtype.name] > 1:
        raise TypeError(f'Indexer must have integer or boolean type, got {i.dtype}')
      if i.dtype is BOOL:
        out.append(np.array(i.a.tolist(), dtype=bool).reshape(i.a.shape))
      else:
        out.append(np.array(i.a.tolist(), dtype=int).reshape(i.a.shape))
    elif isinstance(i, slice):
      def cv(s):
        if s is None or isinstance(s, int):
          return s
        if isinstance(s, Arr):
          if s.traced:
            leak('slice bound computed from traced data')
          return int(s)
        return int(s)
      out.append(slice(cv(i.start), cv(i.stop), cv(i.step)))
    elif isinstance(i, list):
      if not x.np_:
        raise TypeError('Using a non-tuple sequence for multidimensional indexing is not allowed')
      out.append(np.asarray(i))
    elif i is None or i is Ellipsis or isinstance(i, (int, bool, np.integer, np.ndarray)):
      out.append(i)
    elif isinstance(i, (float, str)):
      raise IndexError(f'invalid index {i!r}')
    else:
      raise Unsupported(f'index of type {type(i).__name__}', poly.LOC[0])
  # positions of the consumed axes
  nc = sum(1 if not (isinstance(i, np.ndarray) and i.dtype == bool) else i.ndim
           for i in out if i is not None and i is not Ellipsis and not isinstance(i, bool))
  if nc > x.a.ndim:
    raise IndexError(f'Too many indices: {x.a.ndim}-dimensional array indexed with {nc} indices')
  ax = 0
  keepmask = None
  n_ell = x.a.ndim - nc
  res = []
  for i in out:
    if i is None or isinstance(i, bool):
      res.append(i)
      continue
    if i is Ellipsis:
      ax += n_ell
      res.append(i)
      continue
    n = x.a.shape[ax]
    if isinstance(i, np.ndarray):
      if i.dtype == bool:
        ax += i.ndim
        res.append(i)
        continue
      if not x.np_:
        bad = (i < -n) | (i >= n)
        if bad.any():
          if drop:
            keepmask = ~bad if keepmask is None else (keepmask & ~bad)
          if n == 0:
            raise IndexError('index into empty axis')
          i = np.clip(i, -n, n - 1)
      res.append(i)
    elif isinstance(i, (int, np.integer)):
      if not x.np_ and not (-n <= i < n):
        if n == 0:
          raise IndexError('index into empty axis')
        if drop:
          keepmask = np.array(False)
        i = min(max(i, -n), n - 1)
      res.append(int(i))
    else:
      res.append(i)
    ax += 1
  r = tuple(res)
  if drop and keepmask is not None:
    return ('drop', r, keepmask), tr
  return r, tr


def asarr_operand(o):
  if isinstance(o, Arr):
    return o
  if isinstance(o, (int, float, bool, complex)) or elem.is_abs(o):
    d, w = pytype(o)
    return Arr(_obj(o), d, w, False, True)
  if isinstance(o, np.generic):
    return asarr_operand(o.item())
  if isinstance(o, (list, tuple)):
    return NotImplemented
  return NotImplemented


def asarr(x, dtype=None, np_=False):
  """Array conversion (jnp.asarray / np.asarray)."""
  if getattr(x, '__exact_matrix__', False):
    x = Arr(x.v.copy(), OBJ if dtype is None else todtype(dtype), False, False, np_)
  if isinstance(x, Arr):
    r = x
    if np_ and x.traced:
      EV.numpy_on_traced.append(('numpy conversion of a traced array', poly.LOC[0]))
      leak('numpy conversion of a traced array')
    if r.np_ != np_:
      d = r.dtype if np_ else canon(r.dtype)
      r = Arr(r.a.copy() if np_ else r.a, d, r.weak, r.traced, np_)
  elif isinstance(x, (int, float, bool, complex)) or elem.is_abs(x):
    d, w = pytype(x)
    if np_:
      d = {F32: F64, I32: I64}.get(d, d)
      w = False
    r = Arr(_obj(x), d, w, False, np_)
  elif isinstance(x, np.generic):
    return asarr(x.item(), dtype, np_)
  elif isinstance(x, np.ndarray):
    name = x.dtype.name
    o = np.empty(x.shape, dtype=object)
    o[...] = x.tolist() if x.ndim else x.item()
    if x.ndim:
      o = np.array([topy(v) for v in x.reshape(-1)] + [None], dtype=object)[:-1].reshape(x.shape)
    r = Arr(o, DType(name) if np_ else canon(name), False, False, np_)
  elif isinstance(x, (list, tuple, range)):
    parts = [asarr(v, None, np_) for v in x]
    if not parts:
      r = Arr(np.empty((0,), dtype=object), F64 if np_ or X64[0] else F32, False, False, np_)
    else:
      sh = {p.shape for p in parts}
      if len(sh) != 1:
        raise ModelError('inhomogeneous shape in array construction')
      d, w = parts[0].dtype, parts[0].weak
      for p in parts[1:]:
        d, w = promote2(d, w, p.dtype, p.weak)
      a = np.empty((len(parts),) + parts[0].shape, dtype=object)
      for i, p in enumerate(parts):
        a[i] = p.a if p.a.ndim else p.a[()]
      pure = all(not isinstance(v, Arr) for v in x)
      r = Arr(a, d, w and not np_ and not pure, any(p.traced for p in parts), np_)
  elif hasattr(x, '__array_model__'):
    return asarr(x.__array_model__(), dtype, np_)
  elif hasattr(x, '__iter__') and not isinstance(x, (str, dict)):
    return asarr(list(x), dtype, np_)
  elif np_ :
    r = Arr(_obj(x), OBJ, False, False, True)
  else:
    raise TypeError(f"'{type(x).__name__}' is not a valid JAX array type")
  if dtype is not None:
    d = todtype(dtype)
    if not np_:
      d = canon(d)
    r = r.astype(d) if d is not r.dtype or r.weak else r
    r = Arr(r.a, d, False, r.traced, np_)
  return r


def like(x, a, dtype=None, weak=None):
  return Arr(_obj(a), dtype or x.dtype, x.weak if weak is None else weak, x.traced, x.np_)


def axes_tuple(axis, ndim):
  if axis is None:
    return tuple(range(ndim))
  if isinstance(axis, Arr):
    axis = int(axis)
  if isinstance(axis, int):
    axis = (axis,)
  out = []
  for a in axis:
    a = int(a)
    if not -ndim <= a < ndim:
      raise ModelError(f'axis {a} is out of bounds for array of dimension {ndim}')
    out.append(a % ndim)
  return tuple(out)


_RED = {'sum': (elem.add, 0), 'prod': (elem.mul, 1)}


def reduce(kind, x, axis=None, keepdims=False, where=None, initial=None, dtype=None):
  x = asarr(x, np_=x.np_ if isinstance(x, Arr) else False)
  axs = axes_tuple(axis, x.ndim)
  keepdims = bool(keepdims)
  a = x.a
  tr = x.traced
  w = None
  if where is not None and where is not True:
    w = asarr(where)
    tr = tr or w.traced
    try:
      w = np.broadcast_to(w.a, a.shape)
    except ValueError as e:
      raise ModelError(f'where mask of shape {w.shape} does not broadcast to {x.shape}') from e
  rest = [i for i in range(a.ndim) if i not in axs]
  am = np.transpose(a, rest + list(axs)).reshape(tuple(a.shape[i] for i in rest) + (int(np.prod([a.shape[i] for i in axs], dtype=int)),))
  wm = (np.transpose(w, rest + list(axs)).reshape(am.shape) if w is not None else None)
  out = np.empty(am.shape[:-1], dtype=object)
  n = am.shape[-1]
  init = None
  if initial is not None:
    ia = asarr(initial)
    init = ia.a.reshape(-1)[0]
    tr = tr or ia.traced
  if kind in ('max', 'min') and (wm is not None) and init is None:
    raise ValueError('reductions over max/min with where need an initial value')
  for i in np.ndindex(*out.shape):
    vals = am[i]
    if wm is not None:
      ws = wm[i]
      neutral = {'sum': 0, 'prod': 1, 'max': init, 'min': init, 'all': True, 'any': False}[kind]
      vals = [elem.where(ws[k], vals[k], neutral) for k in range(n)]
    else:
      vals = list(vals)
    if kind == 'sum':
      out[i] = esum(vals, init)
    elif kind == 'prod':
      r = 1 if init is None else init
      for v in vals:
        r = elem.mul(r, v)
      out[i] = r
    elif kind in ('max', 'min'):
      if init is not None:
        vals = vals + [init]
      if not vals:
        raise ModelError(f'zero-size array to reduction operation {kind} which has no identity')
      r = vals[0]
      if len(vals) > 1:
        if all(not elem.is_abs(v) for v in vals):
          r = max(vals) if kind == 'max' else min(vals)
        elif any(isinstance(v, elem.Elem) for v in vals):
          for v in vals[1:]:
            r = elem.fn(kind, r, v)
        else:
          r = elem.fn(kind, *vals)
      out[i] = r
    elif kind in ('all', 'any') and poly.SELECT[0] and any(isinstance(v, poly.Poly) for v in vals):
      ab = [elem.truth(v) for v in vals if elem.is_abs(v)]
      cs = [bool(v) for v in vals if not elem.is_abs(v)]
      stop = kind == 'any'
      out[i] = stop if stop in cs else ab[0] if len(ab) == 1 else poly.fn('max' if stop else 'min', *ab)
    elif kind == 'all':
      r = True
      for v in vals:
        r = elem.land(r, elem.truth(v))
      out[i] = r
    elif kind == 'any':
      r = False
      for v in vals:
        r = elem.lor(r, elem.truth(v))
      out[i] = r
  if keepdims:
    out = out.reshape(tuple(1 if i in axs else a.shape[i] for i in range(a.ndim)))
  d = x.dtype
  wk = x.weak
  if kind in ('all', 'any'):
    d, wk = BOOL, False
  elif kind in ('sum', 'prod') and d is BOOL:
    d = I32 if not x.np_ and not X64[0] else I64
  if dtype is not None:
    d, wk = canon(dtype), False
  return Arr(_obj(out), d, wk, tr, x.np_)


def esum(vals, init=None):
  if any(isinstance(v, elem.Elem) for v in vals):
    r = 0 if init is None else init
    first = init is None
    for v in vals:
      r = v if first else elem.add(r, v)
      first = False
    return r
  d = {}
  if init is not None:
    vals = list(vals) + [init]
  for v in vals:
    if isinstance(v, poly.Poly):
      for m, c in v.d.items():
        d[m] = d.get(m, 0) + c
    elif v is not None:
      d[()] = d.get((), 0) + (int(v) if isinstance(v, bool) else v)
  r = poly.mk({m: c for m, c in d.items() if not (isinstance(c, float) and abs(c) < 1e-14 and m)})
  if poly.FOLD[0]:
    r = poly.fold(r)
  return r


def mean(x, axis=None, keepdims=False, where=None):
  x = asarr(x)
  axs = axes_tuple(axis, x.ndim)
  n = 1
  for a in axs:
    n *= x.shape[a]
  s = reduce('sum', x, axis, keepdims, where)
  if where is not None:
    w = reduce('sum', broadcast_to(asarr(where), x.shape).astype(I32), axis, keepdims)
    return s / w
  return s / float(n)


def squeeze(x, axis=None):
  x = asarr(x)
  if axis is None:
    return x._w(np.squeeze(x.a))
  axs = axes_tuple(axis, x.ndim)
  for a in axs:
    if x.shape[a] != 1:
      raise ModelError(f'cannot squeeze axis {a} of shape {x.shape}')
  return x._w(np.squeeze(x.a, axs))


def expand_dims(x, axis):
  x = asarr(x, np_=isinstance(x, Arr) and x.np_)
  if isinstance(axis, list):
    axis = tuple(axis)
  return x._w(np.expand_dims(x.a, axis))


def broadcast_to(x, shape):
  x = asarr(x)
  try:
    return x._w(np.broadcast_to(x.a, tuple(shape)))
  except ValueError as e:
    raise ModelError(f'cannot broadcast {x.shape} to {tuple(shape)}') from e


def joint(xs):
  xs = [asarr(x) for x in xs]
  d, w = xs[0].dtype, xs[0].weak
  for p in xs[1:]:
    d, w = promote2(d, w, p.dtype, p.weak)
  return xs, d, w, any(p.traced for p in xs), all(p.np_ for p in xs)


def concatenate(xs, axis=0, dtype=None):
  xs, d, w, tr, np_ = joint(list(xs))
  try:
    if axis is None:
      a = np.concatenate([x.a.reshape(-1) for x in xs])
    else:
      a = np.concatenate([x.a for x in xs], axis=axis)
  except ValueError as e:
    raise ModelError(f'cannot concatenate arrays of shapes {[x.shape for x in xs]}') from e
  return Arr(a, canon(dtype) if dtype is not None else d, w, tr, np_)


def stack(xs, axis=0):
  xs, d, w, tr, np_ = joint(list(xs))
  try:
    a = np.stack([x.a for x in xs], axis=axis)
  except ValueError as e:
    raise ModelError(f'cannot stack arrays of shapes {[x.shape for x in xs]}') from e
  return Arr(a, d, w, tr, np_)


def where(c, x=None, y=None):
  if x is None:
    return nonzero(asarr(c))
  c = asarr(c)
  xs, d, w, tr, np_ = joint([x, y])
  try:
    a = ufunc(_where, 3)(c.a, xs[0].a, xs[1].a)
  except ValueError as e:
    raise ModelError(f'incompatible shapes in where: {c.shape} {xs[0].shape} {xs[1].shape}') from e
  return Arr(_obj(a), d, w, tr or c.traced, np_ and c.np_)


def _where(c, a, b):
  if elem.is_abs(c):
    c = elem.truth(c)
  return elem.where(c, a, b)


def take(x, idx, axis=None, mode=None, fill_value=None, indices_are_sorted=False,
         unique_indices=False):
  x = asarr(x, np_=isinstance(x, Arr) and x.np_)
  i = asarr(idx, np_=isinstance(idx, Arr) and idx.np_)
  if not i.is_const():
    raise Unsupported('take with abstract indices', poly.LOC[0])
  if _KIND[i.dtype.name] > 1:
    raise TypeError(f'take requires integer indices, got {i.dtype}')
  ia = np.array(i.a.tolist(), dtype=int).reshape(i.a.shape)
  a = x.a
  if axis is None:
    a = a.reshape(-1)
    axis = 0
  axis = int(axis) % a.ndim
  n = a.shape[axis]
  if indices_are_sorted and ia.ndim == 1 and ia.size > 1 and (np.diff(ia) < 0).any():
    raise ModelError('indices are declared sorted (indices_are_sorted=True) but are not: the result is undefined')
  bad = (ia < -n) | (ia >= n)
  r = np.take(a, np.clip(ia, -n, n - 1), axis=axis)
  if bad.any() and not x.np_ and mode in (None, 'fill'):
    sel = [slice(None)] * axis + [bad]
    r = r.copy()
    r[tuple(sel)] = math.nan if x.dtype.kind == 'f' else (2 ** 31 - 1)
  return Arr(_obj(r), x.dtype, x.weak, x.traced or i.traced, x.np_)


def take_fill(x, idx, fill):
  ix, tr = conv_index(x, idx, drop=True)
  if isinstance(ix, tuple) and ix and isinstance(ix[0], str):
    _, ix, keep = ix
    r = _obj(x.a[ix]).copy()
    r[~np.broadcast_to(keep.reshape(keep.shape + (1,) * (r.ndim - keep.ndim)), r.shape)] = (
        math.nan if fill is None else topy(fill))
  else:
    r = _obj(x.a[ix])
  return Arr(r, x.dtype, x.weak, x.traced or tr, x.np_)


def repeat(x, repeats, axis=None, total_repeat_length=None):
  x = asarr(x, np_=isinstance(x, Arr) and x.np_)
  tr = x.traced
  if isinstance(repeats, Arr):
    if repeats.traced and total_repeat_length is None:
      leak('repeat counts computed from traced data without total_repeat_length')
    tr = tr or repeats.traced
    if not repeats.is_const():
      raise Unsupported('abstract repeat counts')
    rp = np.array(repeats.a.tolist(), dtype=int).reshape(-1)
  else:
    rp = np.asarray(repeats, dtype=int).reshape(-1)
  a = x.a
  if axis is None:
    a = a.reshape(-1)
    axis = 0
  n = a.shape[axis]
  if rp.size == 1:
    rp = np.full(n, rp[0])
  if rp.size != n:
    raise ModelError(f'repeats of length {rp.size} for axis of size {n}')
  if (rp < 0).any():
    raise ModelError('negative repeat count')
  idx = np.repeat(np.arange(n), rp)
  if total_repeat_length is not None:
    t = int(total_repeat_length)
    if idx.size >= t:
      idx = idx[:t]
    else:
      idx = np.concatenate([idx, np.full(t - idx.size, idx[-1] if idx.size else 0)])
  return Arr(_obj(np.take(a, idx, axis=axis)), x.dtype, x.weak, tr, x.np_)


def clip(x, lo=None, hi=None):
  x = asarr(x)
  if lo is not None:
    x = binop('max', x, lo)
  if hi is not None:
    x = binop('min', x, hi)
  return x


def binop(name, x, y):
  x, y = asarr(x), asarr(y)
  return x._bin(y, lambda a, b: elem.fn(name, a, b))


def unop(name, x, float_out=True):
  x = asarr(x, np_=isinstance(x, Arr) and x.np_)
  r = apply(lambda v: elem.fn(name, v), x.a)
  d, w = x.dtype, x.weak
  if float_out and _KIND[d.name] < 2:
    d = F64 if (X64[0] or x.np_) else F32
  return Arr(r, d, w, x.traced, x.np_)


def cumulative(x, axis, f):
  x = asarr(x)
  a = x.a
  if axis is None:
    a = a.reshape(-1)
    axis = 0
  axis = axis % a.ndim
  out = a.copy()
  am = np.moveaxis(out, axis, 0)
  for i in range(1, am.shape[0]):
    am[i] = apply(f, am[i - 1], am[i])
  return x._w(out)


def nonzero(x):
  x = asarr(x, np_=isinstance(x, Arr) and x.np_)
  if x.traced:
    leak('nonzero/where(cond) of traced data (data-dependent shape)')
  def t(v):
    if isinstance(v, poly.Poly):
      return True  # a coefficient label: assumed non-zero
    if elem.is_abs(v):
      raise Unsupported('nonzero of abstract data')
    return bool(v)
  m = np.array([t(v) for v in x.a.reshape(-1)], dtype=bool).reshape(x.a.shape)
  return tuple(asarr(i, np_=x.np_) for i in np.nonzero(m))


def argext(x, axis, kind):
  x = asarr(x, np_=isinstance(x, Arr) and x.np_)
  if not x.is_const():
    if any(not isinstance(v, poly.Poly) and not isinstance(v, (int, float)) for v in x.a.flat):
      return _argext_ranges(x, axis, kind)
    m = x.a.reshape(1, -1) if axis is None else np.moveaxis(x.a, axis, -1)
    o = np.empty(() if axis is None else m.shape[:-1], dtype=object)
    for ix in np.ndindex(*o.shape):
      o[ix] = poly.fn('arg' + kind, *(m[0] if axis is None else m[ix]))
    return Arr(o, I64 if x.np_ or X64[0] else I32, False, x.traced)
  a = np.array([float(v) for v in x.a.reshape(-1)]).reshape(x.a.shape)
  r = (np.argmax if kind == 'max' else np.argmin)(a, axis=axis)
  o = asarr(np.asarray(r), np_=x.np_)
  o.traced = x.traced
  o.dtype = I64 if x.np_ or X64[0] else I32
  return o


def _argext_ranges(x, axis, kind):
  """argmin / argmax of ranges, when one element certainly is extremal."""
  from . import ival
  if any(isinstance(v, poly.Poly) for v in x.a.flat):
    raise Unsupported(f'arg{kind} of abstract data', poly.LOC[0])
  m = x.a.reshape(1, -1) if axis is None else np.moveaxis(x.a, axis, -1)
  o = np.empty(() if axis is None else m.shape[:-1], dtype=object)
  for ix in np.ndindex(*o.shape):
    vs = [ival.lift(v).v for v in (m[0] if axis is None else m[ix])]
    if any(ival.t_bad_may(v) for v in vs):
      raise Unsupported(f'arg{kind} of possibly undefined data', poly.LOC[0])
    if kind == 'max':
      vs = [(-v[1], -v[0]) for v in vs]
    hit = [i for i, v in enumerate(vs) if all(v[1] < w[0] or (v[1] == w[0] and i < j) for j, w in enumerate(vs) if j != i)]
    if len(hit) != 1:
      raise Unsupported(f'arg{kind} of overlapping ranges', poly.LOC[0])
    o[ix] = hit[0]
  return Arr(o, I64 if x.np_ or X64[0] else I32, False, x.traced)


def trace(x, offset=0, axis1=0, axis2=1):
  x = asarr(x, np_=isinstance(x, Arr) and x.np_)
  dg = np.diagonal(x.a, offset, axis1, axis2)
  return reduce('sum', x._w(dg), axis=-1)


# ------------------------------------------------------------------ einsum
def pure_parameter(a):
  """Path of the parameter whose elements `a` consists of, judged by its first entry."""
  for v in a.flat:
    if isinstance(v, poly.Poly) and len(v.d) == 1:
      (m, c), = v.d.items()
      if len(m) == 1 and c == 1:
        t = poly._ATOMS[m[0]]
        if t.kind == 'par':
          return t.key[1][0]
    return None
  return None


def record_contraction(name, precision, tr=True):
  EV.contractions.append((name, poly.LOC[0], precision, tr))


def _esum_products(ops_specs, out_spec, dims):
  raise NotImplementedError


def einsum(spec, *operands, precision=None, optimize=None, preferred_element_type=None, **kw):
  xs, d, w, tr, np_ = joint(operands)
  record_contraction(f'einsum {spec}', precision, tr)
  if not isinstance(spec, str):
    raise Unsupported('einsum with non-string subscripts')
  spec = spec.replace(' ', '')
  if '->' in spec:
    ins, out = spec.split('->')
  else:
    ins, out = spec, None
  ins = ins.split(',')
  if len(ins) != len(xs):
    raise ModelError(f'einsum {spec}: {len(xs)} operands for {len(ins)} subscripts')
  # expand ellipses
  nell = 0
  for s, x in zip(ins, xs):
    if '...' in s:
      k = x.ndim - len(s.replace('...', ''))
      if k < 0:
        raise ModelError(f'einsum {spec}: operand of shape {x.shape} has too few dimensions')
      nell = max(nell, k)
  ell = [f'@{i}' for i in range(nell)]
  lab = []
  for s, x in zip(ins, xs):
    if '...' in s:
      pre, post = s.split('...')
      k = x.ndim - len(pre) - len(post)
      l = list(pre) + ell[nell - k:] + list(post)
    else:
      l = list(s)
    if len(l) != x.ndim:
      raise ModelError(f'einsum {spec}: operand of shape {x.shape} does not match {s!r}')
    lab.append(l)
  if out is None:
    cnt = {}
    for l in lab:
      for c in l:
        cnt[c] = cnt.get(c, 0) + 1
    outl = ell + sorted(c for c in cnt if cnt[c] == 1 and not c.startswith('@'))
  elif '...' in out:
    pre, post = out.split('...')
    outl = list(pre) + ell + list(post)
  else:
    outl = list(out)
    if nell:
      raise ModelError(f'einsum {spec}: ellipsis dropped in output')
  dims = {}
  for l, x in zip(lab, xs):
    for c, n in zip(l, x.shape):
      if c in dims and dims[c] != n:
        if dims[c] == 1 :
          dims[c] = n
        elif n != 1 :
          raise ModelError(f'einsum {spec}: size mismatch for {c!r}: {dims[c]} and {n}')
      else:
        dims.setdefault(c, n)
  for c in outl:
    if c not in dims:
      raise ModelError(f'einsum {spec}: output label {c!r} not in inputs')
  # entry lists; join operand by operand
  isel = any(isinstance(v, elem.Elem) for x in xs for v in x.a.flat)
  tables = []
  for l, x in zip(lab, xs):
    ent = []
    for ix in np.ndindex(*x.shape):
      v = x.a[ix]
      if not isel and not elem.is_abs(v) and v == 0:
        continue
      asg = {}
      ok = True
      for c, i, n in zip(l, ix, x.shape):
        if n == 1 and dims[c] != 1:
          continue
        if c in asg and asg[c] != i:
          ok = False
          break
        asg[c] = i
      if ok:
        ent.append((asg, v))
    tables.append(ent)
  # join
  cur = tables[0]
  for t in tables[1:]:
    if not cur or not t:
      cur = []
      break
    common = sorted(set(cur[0][0]) & set(t[0][0]))
    hm = {}
    for asg, v in t:
      hm.setdefault(tuple(asg[c] for c in common), []).append((asg, v))
    nxt = []
    if len(cur) * 4 > 3_000_000:
      raise Unsupported('einsum too large')
    for asg, v in cur:
      for asg2, v2 in hm.get(tuple(asg[c] for c in common), ()):
        b = dict(asg)
        b.update(asg2)
        nxt.append((b, elem.mul(v, v2)))
    cur = nxt
  acc = {}
  allout = list(outl)
  for asg, v in cur:
    missing = [c for c in allout if c not in asg]
    if missing:
      for combo in np.ndindex(*[dims[c] for c in missing]):
        b = dict(asg)
        b.update(zip(missing, combo))
        acc.setdefault(tuple(b[c] for c in allout), []).append(v)
    else:
      acc.setdefault(tuple(asg[c] for c in allout), []).append(v)
  out_a = _full(tuple(dims[c] for c in outl), 0)
  for ix, vals in acc.items():
    out_a[ix] = esum(vals)
  if preferred_element_type is not None:
    d, w = canon(preferred_element_type), False
  return Arr(_obj(out_a), d, w, tr, np_)


def matmul(x, y, precision=None, preferred_element_type=None):
  x, y = asarr(x), asarr(y)
  if x.ndim == 0 or y.ndim == 0:
    raise ModelError('matmul with 0-d operand')
  if x.shape[-1] != y.shape[-2 if y.ndim > 1 else 0]:
    raise ModelError(f'matmul: incompatible shapes {x.shape} and {y.shape}')
  if x.ndim == 1 and y.ndim == 1:
    s = 'k,k->'
  elif x.ndim == 1:
    s = 'k,...kn->...n'
  elif y.ndim == 1:
    s = '...mk,k->...m'
  else:
    s = '...mk,...kn->...mn'
  return einsum(s, x, y, precision=precision, preferred_element_type=preferred_element_type)


def dot(x, y, precision=None, **kw):
  x, y = asarr(x), asarr(y)
  if x.ndim == 0 or y.ndim == 0:
    return x * y
  if y.ndim == 1:
    return einsum('...k,k->...', x, y, precision=precision)
  if y.ndim == 2:
    return einsum('...k,kn->...n', x, y, precision=precision)
  raise Unsupported('dot with >2-d rhs')
