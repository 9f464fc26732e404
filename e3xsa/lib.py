"""Models of every library the analysed package uses."""

import collections
import dataclasses
import functools
import itertools
import math
import operator
import zipfile

import numpy as np

from . import arr as A
from . import elem
from . import poly
from .arr import Arr, asarr
from .errors import ModelError, Unsupported
from .interp import (BoundV, ClassV, FieldSpec, FuncV, InstanceV, ModuleV, StaticV, _MISSING)


class NS:
  """Library namespace; touching an unmodelled member is UNSUPPORTED."""

  def __init__(self, name, d=None):
    self.__dict__['_name'] = name
    self.__dict__['_d'] = d or {}

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    try:
      return self._d[k]
    except KeyError:
      raise Unsupported(f'library member {self._name}.{k} has no model', poly.LOC[0]) from None

  def put(self, **kw):
    self._d.update(kw)

  def __repr__(self):
    return f'<lib {self._name}>'


class Dummy:
  """Typing-level object: subscriptable, callable, no semantics."""

  def __init__(self, name):
    self._name = name

  def __getitem__(self, i):
    return self

  def __call__(self, *a, **k):
    if len(a) == 1 and not k:
      return a[0]
    return self

  def __or__(self, o):
    return self

  __ror__ = __or__

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return Dummy(f'{self._name}.{n}')

  def __isinstance__(self, o):
    raise Unsupported(f'isinstance against typing object {self._name}')

  def __repr__(self):
    return self._name


class DummyNS:

  def __init__(self, name):
    self._name = name

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    return Dummy(f'{self._name}.{n}')


class EvalCtx:
  """jax.ensure_compile_time_eval"""

  def __enter__(self):
    self.old = A.STAGED[0]
    A.STAGED[0] = False
    return self

  def __exit__(self, *a):
    A.STAGED[0] = self.old
    return False

  def __call__(self, f):
    def g(*a, **k):
      with EvalCtx():
        return f(*a, **k)
    g.__name__ = getattr(f, '__name__', 'f')
    g.__bindable__ = True
    return g


class Ctx:
  """Transparent context manager."""

  def __init__(self, *a, **k):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def __call__(self, f):
    return f


class TypedDictBase:
  __class_kind__ = 'typeddict'


class ProtocolBase:
  __class_kind__ = None


class NamedTupleBase:
  __class_kind__ = 'namedtuple'


class GenericBase:
  __class_kind__ = None

  def __class_getitem__(cls, i):
    return cls


# ---------------------------------------------------------------- PRNG keys
class KeyV:
  """PRNG key as a value number."""

  def __init__(self, ident):
    self.ident = ident

  @property
  def shape(self):
    return (2,)

  @property
  def ndim(self):
    return 1

  @property
  def dtype(self):
    return A.DType('uint32')

  def __repr__(self):
    return f'key{self.ident}'


class KeyArr:

  def __init__(self, ident, n):
    self.ident = ident
    self.n = n

  def __len__(self):
    return self.n

  @property
  def shape(self):
    return (self.n, 2)

  def __getitem__(self, i):
    if isinstance(i, slice):
      return [self[j] for j in range(*i.indices(self.n))]
    i = int(i)
    if not -self.n <= i < self.n:
      i = min(max(i, -self.n), self.n - 1)
    return KeyV(('split', self.ident, self.n, i % self.n))

  def __iter__(self):
    return iter([self[i] for i in range(self.n)])


def _split(key, num=2):
  if not isinstance(key, KeyV):
    raise Unsupported('split of a non-key', poly.LOC[0])
  A.events().rng.append(('split', key.ident, poly.LOC[0]))
  return KeyArr(key.ident, int(num))


def _draw(dist):
  def f(key, shape=(), dtype=None, *args, **kw):
    if not isinstance(key, KeyV):
      raise Unsupported('random draw with a non-key', poly.LOC[0])
    if isinstance(shape, Arr):
      shape = tuple(int(s) for s in shape)
    if isinstance(shape, int):
      shape = (shape,)
    shape = tuple(int(s) for s in shape)
    dt = A.canon(dtype) if dtype is not None else fdef()
    A.events().rng.append((dist, key.ident, poly.LOC[0]))
    rng = A.events()
    if poly_mode() == 'ival':
      from . import ival
      lo, hi = kw.get('minval', 0.0), kw.get('maxval', 1.0)
      lo = lo if not isinstance(lo, Arr) else lo.a[()]
      hi = hi if not isinstance(hi, Arr) else hi.a[()]
      if dist == 'uniform':
        v = ival.Iv(float(lo), float(hi))
      elif dist == 'truncated_normal':
        v = ival.Iv(-2.0, 2.0)
      else:
        v = ival.Iv(-1e3, 1e3)
      return Arr(A._full(shape, v), dt, False, True)
    extra = tuple(sorted((k, repr(v)) for k, v in kw.items()))
    a = np.empty(shape, dtype=object)
    for i in np.ndindex(*shape):
      a[i] = poly.var('rng', (dist, key.ident, shape, dt.name, extra, i), name=f'{dist}{list(i)}')
    return Arr(A._obj(a), dt, False, True, tag=('rng', dist, key.ident))
  return f


_MODE = ['poly']


def poly_mode():
  return _MODE[0]


def _truncated_normal(key, lower=-2, upper=2, shape=(), dtype=None):
  return _draw('truncated_normal')(key, shape, dtype, lower=lower, upper=upper)


def _uniform(key, shape=(), dtype=None, minval=0.0, maxval=1.0):
  return _draw('uniform')(key, shape, dtype, minval=minval, maxval=maxval)


# ---------------------------------------------------------------- jax nn init
class InitModel:
  """A library initialiser object."""

  def __init__(self, name, kw=()):
    self.name = name
    self.kw = kw

  def __call__(self, key, shape, dtype=None, *rest):
    dt = A.canon(dtype) if dtype is not None else fdef()
    if self.name == 'zeros':
      return Arr(A._full(tuple(shape), 0), dt)
    if self.name == 'ones':
      return Arr(A._full(tuple(shape), 1), dt)
    kw = {} if self.kw in ((), ((), ())) else dict(config=self.kw)
    return _draw('init_' + self.name)(key if isinstance(key, KeyV) else KeyV('?'), tuple(shape), dt, **kw)

  def __repr__(self):
    return f'<init {self.name}>'


def _mk_init(name):
  return lambda *a, **k: InitModel(name, (a, tuple(sorted(k.items()))))


# ---------------------------------------------------------------- transforms
def _tree_map(f, t):
  if isinstance(t, (list, tuple)):
    return type(t)(_tree_map(f, x) for x in t)
  if isinstance(t, dict):
    return {k: _tree_map(f, v) for k, v in t.items()}
  if t is None:
    return None
  return f(t)


def _tree_leaves(t):
  if isinstance(t, (list, tuple)):
    return [l for x in t for l in _tree_leaves(x)]
  if isinstance(t, dict):
    return [l for k in sorted(t) for l in _tree_leaves(t[k])]
  return [] if t is None else [t]


def _tree_stack(ts, axes):
  t0 = ts[0]
  if isinstance(t0, (list, tuple)):
    ax = axes if isinstance(axes, (list, tuple)) else [axes] * len(t0)
    return type(t0)(_tree_stack([t[i] for t in ts], ax[i]) for i in range(len(t0)))
  if isinstance(t0, dict):
    return {k: _tree_stack([t[k] for t in ts], axes) for k in t0}
  if axes is None:
    return t0
  return A.stack(ts, axis=axes)


def vmap(f, in_axes=0, out_axes=0, axis_name=None, axis_size=None, **kw):
  def g(*args, **kwargs):
    axes = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(args)
    if len(axes) != len(args):
      raise ValueError('vmap in_axes must match the number of positional arguments')
    n = None
    for a, ax in list(zip(args, axes)) + [(v, 0) for v in kwargs.values()]:
      if ax is None:
        continue
      for l in _tree_leaves(a):
        if isinstance(l, KeyArr):
          k = l.n
        else:
          l = asarr(l)
          if l.ndim == 0:
            raise ModelError('vmap over a scalar argument')
          k = l.shape[ax]
        if n is None:
          n = k
        elif n != k:
          raise ModelError(f'vmap got inconsistent sizes for array axes to be mapped: {n} and {k}')
    if n is None:
      n = axis_size

    def pick(t, ax, i):
      if ax is None:
        return t
      def p(x):
        if isinstance(x, KeyArr):
          return x[i]
        x = asarr(x)
        return x._w(np.take(x.a, i, axis=ax))
      return _tree_map(p, t)

    if n == 0:
      raise Unsupported('vmap over an empty axis')
    outs = [f(*[pick(a, ax, i) for a, ax in zip(args, axes)],
              **{k: pick(v, 0, i) for k, v in kwargs.items()}) for i in range(n)]
    return _tree_stack(outs, out_axes)
  g.__name__ = 'vmap'
  return g


def vectorize(f=None, *, excluded=frozenset(), signature=None):
  if f is None:
    return lambda h: vectorize(h, excluded=excluded, signature=signature)
  def g(*args, **kwargs):
    if signature is None:
      ins = None
      cores = [0] * len(args)
    else:
      ins = signature.replace(' ', '').split('->')[0]
      parts = ins.strip('()').split('),(')
      cores = [len([d for d in p.split(',') if d]) for p in parts]
    vec = [i for i in range(len(args)) if i not in excluded]
    xs = {i: asarr(args[i]) for i in vec}
    core = dict(zip(vec, cores))
    bshape = np.broadcast_shapes(*[xs[i].shape[:xs[i].ndim - core[i]] for i in vec]) if vec else ()
    bx = {i: np.broadcast_to(xs[i].a, bshape + xs[i].shape[xs[i].ndim - core[i]:]) for i in vec}
    outs = []
    for ix in np.ndindex(*bshape):
      call = [Arr(A._obj(bx[i][ix]), xs[i].dtype, xs[i].weak, xs[i].traced) if i in bx else args[i]
              for i in range(len(args))]
      outs.append(f(*call, **kwargs))
    if not bshape:
      return outs[0]
    st = A.stack(outs)
    return st.reshape(tuple(bshape) + st.shape[1:])
  g.__bindable__ = False
  g.__name__ = getattr(f, '__name__', 'vectorized')
  return g


class CustomJVP:
  __bindable__ = False

  def __init__(self, fun, nondiff_argnums=(), **kw):
    self.fun = fun
    self.nondiff = tuple(nondiff_argnums) if not isinstance(nondiff_argnums, int) else (nondiff_argnums,)
    self.rule = None
    self.rules = None
    self.__name__ = getattr(fun, '__name__', '?')

  def defjvp(self, f, symbolic_zeros=False):
    self.rule = f
    return f

  def defjvps(self, *fs):
    self.rules = fs

  def bind(self, args, kwargs):
    names = self.fun.param_names() if isinstance(self.fun, FuncV) else None
    if names is None:
      if kwargs:
        raise Unsupported('custom_jvp kwargs')
      return list(args)
    full = list(args)
    dft = {}
    fd = self.fun.defaults
    pos = self.fun.node.args.args
    for p, d in zip(pos[len(pos) - len(fd):], fd):
      dft[p.arg] = d
    dft.update(self.fun.kwdefaults)
    for n in names[len(args):]:
      if n in kwargs:
        full.append(kwargs[n])
      elif n in dft:
        full.append(dft[n])
      else:
        raise TypeError(f'{self.__name__}() missing required argument {n!r}')
    for k in kwargs:
      if k not in names:
        raise TypeError(f'{self.__name__}() got an unexpected keyword argument {k!r}')
    return full

  def __call__(self, *args, **kwargs):
    full = self.bind(args, kwargs)
    for i in self.nondiff:
      if i < len(full) and isinstance(full[i], Arr) and full[i].traced:
        A.leak(f'traced value passed to non-differentiable argument {i} of {self.__name__}')
    A.events().jvp_calls.append((self, full))
    if poly_mode() == 'ival' and self.rule is not None:
      from . import ival
      return ival.call_custom_jvp(self, full)
    return self.fun(*full)


class CustomVJP:

  def __init__(self, fun, nondiff_argnums=()):
    self.fun = fun
    self.__name__ = getattr(fun, '__name__', '?')

  def defvjp(self, fwd, bwd, **kw):
    pass

  def __call__(self, *a, **k):
    if poly_mode() == 'ival':
      raise Unsupported('custom_vjp in the derivative domain')
    return self.fun(*a, **k)


def jit(f=None, static_argnums=None, static_argnames=None, **kw):
  if f is None:
    return lambda h: jit(h, static_argnums=static_argnums, static_argnames=static_argnames, **kw)
  st_names = ()
  if static_argnames is not None:
    st_names = (static_argnames,) if isinstance(static_argnames, str) else tuple(static_argnames)
  st_nums = ()
  if static_argnums is not None:
    st_nums = (static_argnums,) if isinstance(static_argnums, int) else tuple(static_argnums)

  def g(*args, **kwargs):
    names = f.param_names() if isinstance(f, FuncV) else []

    def tr(x, static):
      if static:
        for l in _tree_leaves(x):
          if isinstance(l, Arr) and not l.np_:
            raise ValueError('non-hashable static argument (array) passed to jit')
        return x
      def mk(v):
        if isinstance(v, KeyV) or isinstance(v, str) or callable(v) and not isinstance(v, Arr):
          if isinstance(v, str) or callable(v):
            raise TypeError(f'jit argument of type {type(v).__name__} is not a valid JAX type')
          return v
        if isinstance(v, (FuncV, InstanceV)):
          raise TypeError('jit argument is not a valid JAX type')
        v = asarr(v)
        return Arr(v.a, v.dtype, v.weak, True)
      return _tree_map(mk, x)

    a2 = [tr(x, i in st_nums or (i < len(names) and names[i] in st_names)) for i, x in enumerate(args)]
    k2 = {k: tr(v, k in st_names or (k in names and names.index(k) in st_nums)) for k, v in kwargs.items()}
    return f(*a2, **k2)
  g.__name__ = getattr(f, '__name__', 'jit')
  g.__wrapped__ = f
  g.__bindable__ = True
  return g


def _stop_gradient(x):
  if poly_mode() == 'ival':
    from . import ival
    return _tree_map(ival.stop_gradient, x)
  return x


def _jvp(f, primals, tangents, has_aux=False):
  if poly_mode() == 'ival':
    from . import ival
    return ival.jvp(f, primals, tangents)
  y = f(*primals)
  y2 = asarr(y)
  a = np.empty(y2.shape, dtype=object)
  name = getattr(f, '__name__', 'f')
  for i in np.ndindex(*y2.shape):
    ds = poly.deps(y2.a[i])
    acc = 0
    for p, t in zip(primals, tangents):
      p, t = asarr(p), asarr(t)
      if p.shape == t.shape:
        for j in np.ndindex(*p.shape):
          if poly.deps(p.a[j]) & ds or not ds:
            acc = acc + poly.fn('deriv', y2.a[i], p.a[j]) * t.a[j] if elem.is_abs(y2.a[i]) and elem.is_abs(p.a[j]) else acc
      else:
        raise ValueError('primal and tangent shapes differ')
    a[i] = acc
  return y, Arr(A._obj(a), y2.dtype, y2.weak, y2.traced)


def _grad(f, argnums=0, has_aux=False, **kw):
  def g(*args, **kwargs):
    raise Unsupported('jax.grad in the analysed package')
  return g


# ---------------------------------------------------------------- segment ops
def _segment(kind):
  def f(data, segment_ids, num_segments=None, indices_are_sorted=False, unique_indices=False,
        bucket_size=None, mode=None):
    x = asarr(data)
    s = asarr(segment_ids)
    if num_segments is None:
      if s.traced:
        A.leak('segment op without num_segments on traced indices')
      num_segments = int(max(s.a.reshape(-1))) + 1 if s.size else 0
    if isinstance(num_segments, Arr):
      num_segments = int(num_segments)
    if s.ndim != 1:
      if x.shape[:s.ndim] != s.shape:
        raise ModelError('segment ids shape mismatch')
      x = x.reshape((-1,) + x.shape[s.ndim:])
      s = s.reshape(-1)
    if not s.is_const():
      raise Unsupported('abstract segment ids')
    ids = [int(v) for v in s.a]
    if x.shape[0] != len(ids):
      raise ModelError('segment ids and data have different lengths')
    if indices_are_sorted and any(a > b for a, b in zip(ids, ids[1:])):
      raise ModelError('segment ids are declared sorted (indices_are_sorted=True) but are not: the result is undefined')
    if unique_indices and len(set(ids)) != len(ids):
      raise ModelError('segment ids are declared unique (unique_indices=True) but are not: the result is undefined')
    A.events().warn.append(('segment', kind, bool(indices_are_sorted), poly.LOC[0]))
    out = np.empty((num_segments,) + x.shape[1:], dtype=object)
    isf = x.dtype.kind == 'f'
    neutral = {'sum': 0, 'prod': 1, 'max': -math.inf if isf else -2 ** 31,
               'min': math.inf if isf else 2 ** 31 - 1}[kind]
    for ix in np.ndindex(*out.shape):
      vals = [x.a[(i,) + ix[1:]] for i, d in enumerate(ids) if (d + num_segments if d < 0 else d) == ix[0]]
      if kind == 'sum':
        out[ix] = A.esum(vals) if vals else 0
      elif kind == 'prod':
        r = 1
        for v in vals:
          r = elem.mul(r, v)
        out[ix] = r
      elif not vals:
        out[ix] = neutral
      elif len(vals) == 1:
        out[ix] = vals[0]
      else:
        r = vals[0]
        for v in vals[1:]:
          r = elem.fn(kind, r, v)
        out[ix] = r
    return Arr(A._obj(out), x.dtype, False, x.traced or s.traced)
  return f


# ---------------------------------------------------------------- flax
class FlaxModule:
  """flax.linen.Module"""
  __class_kind__ = 'flax'

  @staticmethod
  def param(self, name, init_fn, *init_args, unbox=True, **init_kwargs):
    w = self.cls.interp.world
    return _param(w, self, name, init_fn, init_args, init_kwargs)

  @staticmethod
  def variable(self, *a, **k):
    raise Unsupported('flax variable')

  @staticmethod
  def sow(self, *a, **k):
    return False

  @staticmethod
  def is_initializing(self):
    return False

  @staticmethod
  def make_rng(self, name='params'):
    return KeyV(('make_rng', name, self.meta.get('name')))

  @staticmethod
  def has_rng(self, name):
    return True


PARAM_CALL_INIT = [False]
FRESH_PARAMS = [True]


def _param(w, mod, name, init_fn, args, kwargs):
  path = w.flax_path(mod)
  full = f'{path}/{name}' if path else name
  ev = A.events()
  shape = None
  if len(args) >= 1 and isinstance(args[0], (tuple, list)):
    shape = tuple(int(s) for s in args[0])
  if shape is not None and len(args) == 2 and not kwargs and not PARAM_CALL_INIT[0]:
    dt = A.canon(args[1])
    val = None
  else:
    val = init_fn(KeyV(('param', full)), *args, **kwargs)
    if not isinstance(val, Arr):
      val = asarr(val)
    shape, dt = val.shape, val.dtype
  for p in ev.params:
    if p['path'] == full and (p['owner'] is not mod):
      raise ValueError(f'parameter name collision: {full!r}')
  rec = dict(path=full, init=init_fn, args=args, shape=shape, dtype=dt, owner=mod, loc=poly.LOC[0],
             value=val)
  if not any(p['path'] == full for p in ev.params):
    ev.params.append(rec)
  if not FRESH_PARAMS[0] and val is not None:
    return val
  if poly_mode() == 'ival':
    from . import ival
    return Arr(A._full(shape, ival.Iv(-10.0, 10.0)), dt, False, True)
  a = np.empty(shape, dtype=object)
  for i in np.ndindex(*shape):
    a[i] = poly.var('par', (full, i), deps=frozenset(), name=f'{full}{list(i)}')
  return Arr(A._obj(a), dt, False, True)


def promote_dtype(*args, dtype=None, inexact=True):
  xs = [asarr(x) if x is not None else None for x in args]
  if dtype is None:
    d, w = None, True
    for x in xs:
      if x is None:
        continue
      if d is None:
        d, w = x.dtype, x.weak
      else:
        d, w = A.promote2(d, w, x.dtype, x.weak)
    if inexact and d.kind not in 'fc':
      d = A.promote2(fdef(), False, d, w)[0]
    dtype = d
  else:
    dtype = A.canon(dtype)
    if inexact and dtype.kind not in 'fc':
      raise ValueError(f'Dtype must be inexact: {dtype}')
  return [Arr(x.astype(dtype).a, dtype, False, x.traced) if x is not None else None for x in xs]


class FlaxDense:
  """flax.linen.Dense"""
  __class_kind__ = 'flaxlib'

  def __init__(self, features, use_bias=True, dtype=None, param_dtype=None, precision=None,
               kernel_init=None, bias_init=None, name=None, promote_dtype=None, dot_general=None, parent=None):
    self.world = WORLD[0]
    self.features = features
    self.use_bias = use_bias
    self.dtype = dtype
    self.param_dtype = A.F32 if param_dtype is None else param_dtype
    self.precision = precision
    self.kernel_init = kernel_init if kernel_init is not None else InitModel('lecun_normal')
    self.bias_init = bias_init if bias_init is not None else InitModel('zeros')
    self.meta = {'name': name}
    self.world.flax_register(self)

  def __call__(self, x):
    x = asarr(x)
    k = _param(self.world, self, 'kernel', self.kernel_init,
               (( x.shape[-1], self.features), self.param_dtype), {})
    b = None
    if self.use_bias:
      b = _param(self.world, self, 'bias', self.bias_init, ((self.features,), self.param_dtype), {})
    if b is not None:
      x, k, b = promote_dtype(x, k, b, dtype=self.dtype)
    else:
      x, k = promote_dtype(x, k, dtype=self.dtype)
    y = A.einsum('...i,io->...o', x, k, precision=self.precision)
    if b is not None:
      y = y + b
      if poly.FOLD[0]:
        y = y._w(A.apply(poly.fold, y.a))
    return y


class FlaxEmbed:

  def __init__(self, num_embeddings, features, dtype=None, param_dtype=None, embedding_init=None, name=None):
    raise Unsupported('flax.linen.Embed')


WORLD = [None]


# ---------------------------------------------------------------- numpy-like
def _shape(s):
  if isinstance(s, Arr):
    if s.ndim == 0:
      return (int(s),)
    return tuple(int(x) for x in s)
  if isinstance(s, int):
    return (s,)
  return tuple(int(x) for x in s)


def fdef(np_=False):
  return A.F64 if np_ or A.X64[0] else A.F32


def idef(np_=False):
  return A.I64 if np_ or A.X64[0] else A.I32


def _dt(dtype, np_, default):
  if dtype is None:
    return default
  d = A.todtype(dtype)
  return d if np_ else A.canon(d)


def _inexact(x):
  x = asarr(x)
  return x if x.dtype.kind in 'fc' else x.astype(fdef())


def make_numpy(np_):
  """jax.numpy (np_=False) or numpy (np_=True)."""
  ns = NS('numpy' if np_ else 'jax.numpy')

  def conv(x):
    return asarr(x, np_=np_)

  def un(name, float_out=True):
    def f(x, *a, **k):
      return A.unop(name, conv(x), float_out)
    f.__name__ = name
    return f

  def bi(name):
    def f(x, y, **k):
      return A.binop(name, conv(x), conv(y))
    f.__name__ = name
    return f

  def op(fn):
    def f(x, y, **k):
      return fn(conv(x), conv(y))
    return f

  def full(shape, fill_value, dtype=None, **k):
    v = conv(fill_value)
    d = _dt(dtype, np_, v.dtype)
    sh = _shape(shape)
    return Arr(A._obj(np.array(np.broadcast_to(v.astype(d).a if d is not v.dtype else v.a, sh))), d,
               v.weak and dtype is None, v.traced, np_)

  def zeros(shape, dtype=None, **k):
    return Arr(A._full(_shape(shape), 0), _dt(dtype, np_, fdef(np_)), False, False, np_)

  def ones(shape, dtype=None, **k):
    return Arr(A._full(_shape(shape), 1), _dt(dtype, np_, fdef(np_)), False, False, np_)

  def empty(shape, dtype=None, **k):
    return Arr(A._full(_shape(shape), 0), _dt(dtype, np_, fdef(np_)), False, False, np_)

  def _like(v):
    def f(x, dtype=None, shape=None, **k):
      x = conv(x)
      sh = x.shape if shape is None else _shape(shape)
      d = _dt(dtype, np_, x.dtype)
      val = (v != 0) if d is A.BOOL else v
      return Arr(A._full(sh, val), d, x.weak and dtype is None, False, np_)
    return f

  def full_like(x, fill_value, dtype=None, shape=None, **k):
    x = conv(x)
    v = conv(fill_value)
    d = _dt(dtype, np_, x.dtype)
    sh = x.shape if shape is None else _shape(shape)
    return Arr(A._obj(np.array(np.broadcast_to(v.a, sh))), d, x.weak and dtype is None, v.traced, np_)

  def arange(start, stop=None, step=None, dtype=None, **k):
    def sc(v):
      if isinstance(v, Arr):
        if v.traced:
          A.leak('arange bound computed from traced data')
        return v.item()
      return v
    start, stop, step = sc(start), sc(stop), sc(step)
    if stop is None:
      start, stop = 0, start
    vals = np.arange(start, stop, 1 if step is None else step)
    d = idef(np_) if all(isinstance(v, (int, np.integer, type(None))) for v in (start, stop, step)) else fdef(np_)
    a = np.array([A.topy(v) for v in vals] + [None], dtype=object)[:-1]
    r = Arr(a, d, False, False, np_)
    if dtype is not None:
      r = r.astype(_dt(dtype, np_, d))
    return r

  def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if isinstance(num, Arr):
      num = int(num)
    s, e = conv(start), conv(stop)
    if s.ndim or e.ndim:
      raise Unsupported('linspace of arrays')
    sv, ev = s.a[()], e.a[()]
    div = (num - 1) if endpoint else num
    a = np.empty((num,), dtype=object)
    for i in range(num):
      if i == 0:
        a[i] = sv if elem.is_abs(sv) else float(sv)
      elif endpoint and i == num - 1:
        a[i] = ev if elem.is_abs(ev) else float(ev)
      else:
        a[i] = elem.add(sv, elem.mul(elem.add(ev, elem.neg(sv)), i / div))
    r = Arr(a, _dt(dtype, np_, fdef(np_)), False, s.traced or e.traced, np_)
    if retstep:
      return r, (e - s) / div
    return r

  def array(x, dtype=None, copy=True, ndmin=0, **k):
    if dtype is not None and (dtype is object or dtype is A.OBJ) and np_:
      return _object_array(x)
    r = asarr(x, dtype, np_)
    if np_ and copy:
      r = r.copy()
    if not np_ and not isinstance(x, Arr):
      r = Arr(r.a, r.dtype, r.weak and dtype is None and not isinstance(x, (list, tuple)), r.traced, np_)
    while r.ndim < ndmin:
      r = r._w(r.a[None])
    return r

  def asarray(x, dtype=None, **k):
    if dtype is not None and (dtype is object or dtype is A.OBJ) and np_:
      return _object_array(x)
    return asarr(x, dtype, np_)

  def _object_array(x):
    a = np.empty((len(x),), dtype=object)
    for i, v in enumerate(x):
      a[i] = v
    return Arr(a, A.OBJ, False, False, True)

  def reshape(x, shape=None, newshape=None, order='C', **k):
    shape = shape if shape is not None else newshape
    return conv(x).reshape(shape if isinstance(shape, (tuple, list)) else (shape,))

  def tile(x, reps):
    x = conv(x)
    reps = (int(reps),) if not isinstance(reps, (tuple, list)) else tuple(int(r) for r in reps)
    return x._w(np.tile(x.a, reps))

  def delete(x, obj, axis=None, **k):
    x = conv(x)
    if isinstance(obj, Arr):
      if obj.traced:
        A.leak('delete with traced indices')
      obj = np.array(obj.a.tolist(), dtype=int)
    elif isinstance(obj, slice):
      obj = slice(*[None if v is None else int(v) for v in (obj.start, obj.stop, obj.step)])
    return x._w(np.delete(x.a, obj, axis))

  def pad(x, pad_width, mode='constant', constant_values=0, **k):
    x = conv(x)
    if mode != 'constant':
      raise Unsupported(f'pad mode {mode}')
    if isinstance(pad_width, Arr):
      pad_width = pad_width.tolist()
    def ii(p):
      return tuple(int(v) for v in p)
    if isinstance(pad_width, int):
      pw = [(pad_width, pad_width)] * x.ndim
    else:
      pw = list(pad_width)
      if pw and isinstance(pw[0], (int, Arr)):
        if len(pw) == 1:
          pw = [(int(pw[0]), int(pw[0]))] * x.ndim
        else:
          pw = [ii(pw)] * x.ndim
      else:
        pw = [ii(p) for p in pw]
        if len(pw) == 1:
          pw = pw * x.ndim
    if any(v < 0 for p in pw for v in p):
      raise ModelError('pad widths must be non-negative')
    if len(pw) != x.ndim:
      raise ModelError('pad_width does not match array rank')
    cv = constant_values
    tr = x.traced
    if isinstance(cv, Arr):
      tr = tr or cv.traced
      cv = cv.a.reshape(-1)[0]
    out = A._full(tuple(n + a + b for n, (a, b) in zip(x.shape, pw)), cv)
    out[tuple(slice(a, a + n) for n, (a, b) in zip(x.shape, pw))] = x.a
    return Arr(A._obj(out), x.dtype, x.weak, tr, np_)

  def split(x, indices_or_sections, axis=0):
    x = conv(x)
    n = x.shape[axis]
    s = indices_or_sections
    if isinstance(s, Arr):
      s = int(s) if s.ndim == 0 else [int(v) for v in s]
    if isinstance(s, int):
      if n % s:
        raise ModelError(f'array split does not result in an equal division ({n} into {s})')
      idx = [n // s * i for i in range(1, s)]
    else:
      idx = [int(v) for v in s]
    return [x._w(v) for v in np.split(x.a, idx, axis=axis)]

  def hsplit(x, s):
    x = conv(x)
    return split(x, s, axis=0 if x.ndim == 1 else 1)

  def roll(x, shift, axis=None):
    x = conv(x)
    if isinstance(shift, Arr):
      shift = int(shift)
    return x._w(np.roll(x.a, shift, axis))

  def eye(n, m=None, k=0, dtype=None):
    a = np.eye(int(n), None if m is None else int(m), int(k), dtype=int).astype(object)
    return Arr(a, _dt(dtype, np_, fdef(np_)), False, False, np_)

  def cross(a, b, axis=-1, **k):
    a, b = conv(a), conv(b)
    if axis != -1:
      a, b = (v._w(np.moveaxis(v.a, axis, -1)) for v in (a, b))
    if a.shape[-1] != 3 or b.shape[-1] != 3:
      raise ModelError('cross product needs vectors of length 3')
    x = a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1]
    y = a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2]
    z = a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    r = A.stack([x, y, z], axis=-1)
    return r if axis == -1 else r._w(np.moveaxis(r.a, -1, axis))

  def red(kind):
    def f(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None, **k):
      return A.reduce(kind, conv(x), axis, keepdims, where, initial, dtype)
    return f

  def mean(x, axis=None, dtype=None, out=None, keepdims=False, where=None):
    return A.mean(conv(x), axis, keepdims, where)

  def count_nonzero(x, axis=None, keepdims=False):
    x = conv(x)
    t = Arr(A.apply(lambda v: v if elem.is_abs(v) else int(bool(v)), x.a), idef(np_), False, x.traced, np_)
    return A.reduce('sum', t, axis, keepdims)

  def allclose(x, y, rtol=1e-5, atol=1e-8, **k):
    x, y = conv(x), conv(y)
    d = abs(x - y) <= atol + rtol * abs(y)
    return A.reduce('all', d)

  def isclose(x, y, rtol=1e-5, atol=1e-8, **k):
    x, y = conv(x), conv(y)
    return abs(x - y) <= atol + rtol * abs(y)

  def array_equal(x, y, **k):
    x, y = conv(x), conv(y)
    if x.shape != y.shape:
      return False
    return A.reduce('all', x == y)

  def where(c, x=None, y=None, **k):
    if x is None:
      return A.nonzero(conv(c))
    return A.where(c, x, y)

  def nanarg(kind):
    def f(x, axis=None):
      x = conv(x)
      if not x.is_const():
        raise Unsupported('nanargmin of abstract data')
      v = np.array([float(t) for t in x.a.reshape(-1)])
      if np.all(np.isnan(v)):
        raise ValueError('All-NaN slice encountered')
      return asarr(int(np.nanargmin(v) if kind == 'min' else np.nanargmax(v)), np_=np_)
    return f

  def issubdtype(d, k):
    try:
      d = A.todtype(d)
    except TypeError:
      if isinstance(d, A.DKind):
        return set(d.kinds) <= set(getattr(k, 'kinds', ''))
      raise
    if isinstance(k, A.DKind):
      return d.kind in k.kinds
    if k is float:
      return d.name == 'float64'
    if k is int:
      return d.kind in 'iu'
    return d == A.todtype(k)

  def result_type(*xs):
    d, w = None, True
    for x in xs:
      if isinstance(x, (Arr, int, float, bool)):
        x = asarr(x)
        dd, ww = x.dtype, x.weak
      else:
        dd, ww = A.canon(x), False
      d, w = (dd, ww) if d is None else A.promote2(d, w, dd, ww)
    return d

  def sinc(x):
    x = conv(x)
    return A.unop('sinc', x)

  def unique(x, return_counts=False, return_index=False, return_inverse=False, **k):
    x = conv(x)
    if x.traced:
      A.leak('unique of traced data')
    if not x.is_const():
      raise Unsupported('unique of abstract data')
    vals = sorted(set(x.a.reshape(-1).tolist()))
    r = asarr(vals, np_=np_)
    if return_counts:
      fl = x.a.reshape(-1).tolist()
      return r, asarr([fl.count(v) for v in vals], np_=np_)
    return r

  def meshgrid(*xs, indexing='xy'):
    xs = [conv(x) for x in xs]
    idx = np.meshgrid(*[np.arange(x.size) for x in xs], indexing=indexing)
    return [x._w(x.a.reshape(-1)[i]) for x, i in zip(xs, idx)]

  def take_along_axis(x, idx, axis):
    x, i = conv(x), conv(idx)
    if not i.is_const():
      raise Unsupported('take_along_axis abstract')
    r = np.take_along_axis(x.a, np.array(i.a.tolist(), dtype=int).reshape(i.shape), axis)
    return Arr(A._obj(r), x.dtype, x.weak, x.traced or i.traced, np_)

  def argsort(x, axis=-1, **k):
    x = conv(x)
    if not x.is_const():
      raise Unsupported('argsort of abstract data')
    r = np.argsort(np.array([float(v) for v in x.a.reshape(-1)]).reshape(x.shape), axis=axis, kind='stable')
    o = asarr(r, np_=np_)
    o.traced = x.traced
    return o

  def sort(x, axis=-1, **k):
    x = conv(x)
    if not x.is_const():
      raise Unsupported('sort of abstract data')
    return x._w(np.sort(x.a, axis=axis))

  def diag(x, k=0):
    x = conv(x)
    if x.ndim == 1:
      n = x.size + abs(k)
      out = A._full((n, n), 0)
      for i in range(x.size):
        out[(i, i + k) if k >= 0 else (i - k, i)] = x.a[i]
      return x._w(out)
    return x._w(np.diagonal(x.a, k))

  def tri(fn):
    def f(x, k=0):
      x = conv(x)
      m = fn(np.ones(x.shape[-2:], dtype=bool), k)
      return x._w(np.where(np.broadcast_to(m, x.shape), x.a, 0))
    return f

  def outer(a, b, **k):
    a, b = conv(a).reshape(-1), conv(b).reshape(-1)
    return A.expand_dims(a, -1) * A.expand_dims(b, 0)

  def tensordot(a, b, axes=2, precision=None, **k):
    a, b = conv(a), conv(b)
    if isinstance(axes, int):
      ax = list(range(a.ndim - axes, a.ndim))
      bx = list(range(axes))
    else:
      ax, bx = axes
      ax = [ax] if isinstance(ax, int) else list(ax)
      bx = [bx] if isinstance(bx, int) else list(bx)
    ax = [i % a.ndim for i in ax]
    bx = [i % b.ndim for i in bx]
    L = 'abcdefghijklmnopqrstuvwxyz'
    la = list(L[:a.ndim])
    lb = list(L[a.ndim:a.ndim + b.ndim])
    for i, j in zip(ax, bx):
      lb[j] = la[i]
    out = [c for i, c in enumerate(la) if i not in ax] + [c for j, c in enumerate(lb) if j not in bx]
    return A.einsum(f"{''.join(la)},{''.join(lb)}->{''.join(out)}", a, b, precision=precision)

  def vdot(a, b, precision=None, **k):
    return A.einsum('i,i->', conv(a).reshape(-1), conv(b).reshape(-1), precision=precision)

  def inner(a, b, precision=None, **k):
    return A.einsum('...i,...i->...', conv(a), conv(b), precision=precision)

  def einsum(spec, *xs, precision=None, optimize=None, preferred_element_type=None, **k):
    return A.einsum(spec, *[conv(x) for x in xs], precision=precision,
                    preferred_element_type=preferred_element_type)

  def matmul(a, b, precision=None, preferred_element_type=None, **k):
    return A.matmul(conv(a), conv(b), precision, preferred_element_type)

  def moveaxis(x, s, d):
    x = conv(x)
    return x._w(np.moveaxis(x.a, s, d))

  def transpose(x, axes=None):
    x = conv(x)
    return x._w(np.transpose(x.a, axes))

  def flip(x, axis=None):
    x = conv(x)
    return x._w(np.flip(x.a, axis))

  def power(x, y, **k):
    return conv(x) ** conv(y)

  def square(x, **k):
    x = conv(x)
    return x * x

  def sign(x, **k):
    return A.unop('sign', conv(x), False)

  def absf(x, **k):
    return abs(conv(x))

  def logical(f):
    def g(x, y, **k):
      x, y = conv(x), conv(y)
      return Arr(A.apply(lambda a, b: f(elem.truth(a), elem.truth(b)), x.a, y.a), A.BOOL, False,
                 x.traced or y.traced, np_)
    return g

  def logical_not(x, **k):
    x = conv(x)
    return Arr(A.apply(lambda a: elem.lnot(elem.truth(a)), x.a), A.BOOL, False, x.traced, np_)

  def logical_xor(x, y, **k):
    x, y = conv(x), conv(y)
    return Arr(A.apply(lambda a, b: (elem.truth(a) ^ elem.truth(b)), x.a, y.a), A.BOOL, False, x.traced or y.traced, np_)

  def clip(x, min=None, max=None, a_min=None, a_max=None, **k):
    return A.clip(conv(x), min if min is not None else a_min, max if max is not None else a_max)

  def broadcast_arrays(*xs):
    xs = [conv(x) for x in xs]
    sh = np.broadcast_shapes(*[x.shape for x in xs])
    return [A.broadcast_to(x, sh) for x in xs]

  def isx(name):
    def f(x, **k):
      x = conv(x)
      return Arr(A.apply(lambda v: elem.fn(name, v), x.a), A.BOOL, False, x.traced, np_)
    return f

  def atleast(n):
    def f(x):
      x = conv(x)
      while x.ndim < n:
        x = x._w(x.a[None])
      return x
    return f

  def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    x = conv(x)
    if poly_mode() == 'ival':
      raise Unsupported('nan_to_num in the interval domain')
    return x

  def ddiff(x, n=1, axis=-1):
    x = conv(x)
    a = np.moveaxis(x.a, axis, 0)
    r = A.apply(A._sub, a[1:], a[:-1])
    return x._w(np.moveaxis(r, 0, axis))

  def iscomplexobj(x):
    return conv(x).dtype.kind == 'c'

  ns.put(
      abs=absf, absolute=absf, fabs=absf, exp=un('exp'), expm1=un('expm1'), log=un('log'), log1p=un('log1p'), log2=un('log2'), log10=un('log10'),
      exp2=un('exp2'), sqrt=un('sqrt'), cbrt=un('cbrt'), sin=un('sin'), cos=un('cos'), tan=un('tan'),
      arcsin=un('arcsin'), arccos=un('arccos'), arctan=un('arctan'), asin=un('arcsin'), acos=un('arccos'), atan=un('arctan'),
      sinh=un('sinh'), cosh=un('cosh'), tanh=un('tanh'), floor=un('floor'), ceil=un('ceil'), round=lambda x, decimals=0, **k: conv(x).round(decimals),
      arctan2=bi('arctan2'), atan2=bi('arctan2'), hypot=bi('hypot'), logaddexp=bi('logaddexp'), maximum=bi('max'), minimum=bi('min'),
      fmax=bi('max'), fmin=bi('min'),
      add=op(operator.add), subtract=op(operator.sub), multiply=op(operator.mul), divide=op(operator.truediv),
      true_divide=op(operator.truediv), floor_divide=op(operator.floordiv), mod=op(operator.mod), remainder=op(operator.mod),
      power=power, pow=power, float_power=power, negative=lambda x, **k: -conv(x), positive=lambda x, **k: conv(x), square=square, reciprocal=lambda x, **k: 1 / conv(x), sign=sign,
      equal=op(operator.eq), not_equal=op(operator.ne), less=op(operator.lt), less_equal=op(operator.le), greater=op(operator.gt),
      greater_equal=op(operator.ge), logical_and=logical(elem.land), logical_or=logical(elem.lor), logical_not=logical_not, logical_xor=logical_xor,
      bitwise_and=op(operator.and_), bitwise_or=op(operator.or_), bitwise_xor=op(operator.xor), invert=lambda x, **k: ~conv(x),
      zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=_like(0), ones_like=_like(1), empty_like=_like(0),
      full_like=full_like, arange=arange, linspace=linspace, array=array, asarray=asarray, copy=lambda x, **k: conv(x).copy(), reshape=reshape, ravel=lambda x, **k: conv(x).ravel(),
      tile=tile, repeat=lambda x, repeats, axis=None, total_repeat_length=None, **k: A.repeat(conv(x), repeats, axis, total_repeat_length),
      delete=delete, pad=pad, split=split, array_split=split, hsplit=hsplit, vsplit=lambda x, s: split(x, s, 0), roll=roll, eye=eye, identity=lambda n, dtype=None: eye(n, dtype=dtype), cross=cross,
      sum=red('sum'), prod=red('prod'), max=red('max'), min=red('min'), amax=red('max'), amin=red('min'), all=red('all'), any=red('any'), mean=mean, average=lambda x, axis=None, **k: mean(x, axis),
      count_nonzero=count_nonzero, allclose=allclose, isclose=isclose, array_equal=array_equal, where=where, select=None, nonzero=lambda x, **k: A.nonzero(conv(x)),
      flatnonzero=lambda x, **k: A.nonzero(conv(x).ravel())[0],
      nanargmin=nanarg('min'), nanargmax=nanarg('max'), argmax=lambda x, axis=None, **k: A.argext(conv(x), axis, 'max'), argmin=lambda x, axis=None, **k: A.argext(conv(x), axis, 'min'),
      issubdtype=issubdtype, result_type=result_type, promote_types=lambda a, b: A.promote2(A.todtype(a), False, A.todtype(b), False)[0], can_cast=None,
      sinc=sinc, unique=unique, meshgrid=meshgrid, take=lambda x, i, axis=None, **k: A.take(conv(x), i, axis, **k), take_along_axis=take_along_axis,
      argsort=argsort, sort=sort, diag=diag, diagonal=lambda x, offset=0, axis1=0, axis2=1: conv(x).diagonal(offset, axis1, axis2), tril=tri(np.tril), triu=tri(np.triu),
      trace=lambda x, offset=0, axis1=0, axis2=1, **k: A.trace(conv(x), offset, axis1, axis2), outer=outer, tensordot=tensordot, vdot=vdot, inner=inner, dot=lambda a, b, precision=None, **k: A.dot(conv(a), conv(b), precision),
      einsum=einsum, matmul=matmul, moveaxis=moveaxis, transpose=transpose, permute_dims=transpose, swapaxes=lambda x, a, b: conv(x).swapaxes(a, b),
      matrix_transpose=lambda x: conv(x).mT,
      flip=flip, fliplr=lambda x: flip(x, 1), flipud=lambda x: flip(x, 0), clip=clip, broadcast_to=lambda x, s: A.broadcast_to(conv(x), _shape(s)), broadcast_arrays=broadcast_arrays,
      broadcast_shapes=lambda *s: tuple(np.broadcast_shapes(*s)),
      isnan=isx('isnan'), isinf=isx('isinf'), isfinite=isx('isfinite'), atleast_1d=atleast(1), atleast_2d=lambda x: atleast(2)(x), nan_to_num=nan_to_num,
      concatenate=lambda xs, axis=0, dtype=None, **k: A.concatenate([conv(x) for x in xs], axis, dtype), concat=lambda xs, axis=0, **k: A.concatenate([conv(x) for x in xs], axis),
      append=lambda x, v, axis=None: A.concatenate([conv(x), conv(v)], axis),
      stack=lambda xs, axis=0, **k: A.stack([conv(x) for x in xs], axis), vstack=lambda xs, **k: A.concatenate([atleast(2)(x) for x in xs], 0),
      hstack=lambda xs, **k: (lambda ys: A.concatenate(ys, 0 if ys[0].ndim == 1 else 1))([atleast(1)(x) for x in xs]), 
      expand_dims=lambda x, axis: A.expand_dims(conv(x), axis), squeeze=lambda x, axis=None: A.squeeze(conv(x), axis), cumsum=lambda x, axis=None, **k: A.cumulative(conv(x), axis, elem.add),
      cumprod=lambda x, axis=None, **k: A.cumulative(conv(x), axis, elem.mul), diff=ddiff, kron=None, finfo=A.FInfo, iinfo=A.IInfo, shape=lambda x: conv(x).shape, ndim=lambda x: conv(x).ndim, size=lambda x, axis=None: conv(x).size if axis is None else conv(x).shape[axis],
      vectorize=vectorize, iscomplexobj=iscomplexobj, isscalar=lambda x: isinstance(x, (int, float, bool, complex)), real=lambda x: conv(x), conj=lambda x: conv(x), conjugate=lambda x: conv(x), astype=lambda x, d: conv(x).astype(d),
      pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, newaxis=None, euler_gamma=0.5772156649015329,
      ndarray=Arr, generic=A.GENERIC, floating=A.FLOATING, integer=A.INTEGER, signedinteger=A.SIGNED, unsignedinteger=A.UNSIGNED, inexact=A.INEXACT, number=A.NUMBER,
      complexfloating=A.COMPLEXF, dtype=A.todtype, bool_=A.BOOL, bool=A.BOOL, int_=A.I64, float_=A.F64,
      int8=A.DType('int8'), int16=A.DType('int16'), int32=A.I32, int64=A.I64, uint8=A.DType('uint8'), uint16=A.DType('uint16'), uint32=A.DType('uint32'), uint64=A.DType('uint64'),
      float16=A.DType('float16'), bfloat16=A.DType('bfloat16'), float32=A.F32, float64=A.F64, complex64=A.DType('complex64'), complex128=A.DType('complex128'),
      deg2rad=lambda x: conv(x) * (math.pi / 180), rad2deg=lambda x: conv(x) * (180 / math.pi),
  )
  for k in [k for k, v in ns._d.items() if v is None and k != 'newaxis']:
    del ns._d[k]
  return ns


# ---------------------------------------------------------------- file system
class FakeFile:
  """Handle of the modelled file system."""

  def __init__(self, fs, path, mode):
    self.fs, self.path, self.mode = fs, path, mode
    self.closed = False

  def __enter__(self):
    return self

  def __exit__(self, *a):
    self.closed = True
    return False

  def close(self):
    self.closed = True

  def read(self):
    return FakeBytes(self.fs.files.get(self.path))

  def write(self, b):
    self.fs.log.append(('write', self.path, poly.LOC[0]))
    if isinstance(b, FakeBytes):
      self.fs.files[self.path] = b.content

  def flush(self):
    pass

  def seek(self, *a):
    pass

  def getvalue(self):
    return self.read()

  def getbuffer(self):
    return self.read()


class FakeBytes:

  def __init__(self, content):
    self.content = content


class BytesIOModel(FakeFile):

  def __init__(self, b=None):
    if b is None:
      c = None
    elif isinstance(b, FakeBytes):
      c = b.content
    else:
      raise TypeError("a bytes-like object is required")
    class _FS:
      files = {'': c}
      log = []
      fail_write = None
    FakeFile.__init__(self, _FS, '', 'rb')


class Corrupt:
  """File content that cannot be decoded: raises `exc` on load."""

  def __init__(self, exc):
    self.exc = exc


class Npz:
  """np.load(...) result."""

  def __init__(self, content):
    self.content = content

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def close(self):
    pass

  @property
  def files(self):
    return list(self.content)

  def keys(self):
    return list(self.content)

  def __contains__(self, k):
    return k in self.content

  def __iter__(self):
    return iter(self.content)

  def __getitem__(self, k):
    if k not in self.content:
      raise KeyError(f'{k} is not a file in the archive')
    v = self.content[k]
    if isinstance(v, Exception):
      raise v
    if isinstance(v, Arr):
      return Arr(v.a.copy(), v.dtype, False, False, True)
    return asarr(v, np_=True)

  def get(self, k, d=None):
    return self[k] if k in self.content else d


class FakePath:

  def __init__(self, fs, p):
    self.fs = fs
    self.p = str(p)

  def __fspath__(self):
    return self.p

  def __str__(self):
    return self.p

  def __repr__(self):
    return f'Path({self.p})'

  def __eq__(self, o):
    return isinstance(o, FakePath) and o.p == self.p

  def __hash__(self):
    return hash(self.p)

  def exists(self):
    self.fs.log.append(('exists', self.p, poly.LOC[0]))
    return self.p in self.fs.files

  is_file = exists

  @property
  def parent(self):
    return FakePath(self.fs, self.p.rsplit('/', 1)[0])

  @property
  def name(self):
    return self.p.rsplit('/', 1)[-1]

  @property
  def stem(self):
    return self.name.rsplit('.', 1)[0]

  @property
  def suffix(self):
    return '.' + self.name.rsplit('.', 1)[1] if '.' in self.name else ''

  def with_suffix(self, s):
    return FakePath(self.fs, self.p.rsplit('.', 1)[0] + s)

  def with_name(self, n):
    return FakePath(self.fs, self.p.rsplit('/', 1)[0] + '/' + n)

  def expanduser(self):
    return self

  def resolve(self):
    return self

  def __truediv__(self, o):
    return FakePath(self.fs, f'{self.p}/{o}')

  def mkdir(self, *a, **k):
    self.fs.log.append(('mkdir', self.p, poly.LOC[0]))
    if self.fs.fail_write:
      raise self.fs.fail_write

  def unlink(self, missing_ok=False):
    self.fs.log.append(('unlink', self.p, poly.LOC[0]))
    self.fs.files.pop(self.p, None)

  def replace(self, o):
    self.fs.log.append(('replace', self.p, str(o), poly.LOC[0]))
    if self.fs.fail_write:
      raise self.fs.fail_write
    o = o.p if isinstance(o, FakePath) else str(o)
    self.fs.files[o] = self.fs.files.pop(self.p)
    return FakePath(self.fs, o)

  rename = replace

  def open(self, mode='r', *a, **k):
    return self.fs.open(self.p, mode)

  def write_bytes(self, b):
    with self.open('wb') as f:
      f.write(b)

  def read_bytes(self):
    with self.open('rb') as f:
      return f.read()


class FS:

  def __init__(self):
    self.files = {}
    self.package = {}
    self.log = []
    self.fail_write = None      # exception raised by open(..., 'w')
    self.fail_savez = None      # exception raised while writing (after open)
    self.fail_read = None

  def open(self, p, mode='r'):
    if isinstance(p, FakePath):
      p = p.p
    p = str(p)
    self.log.append(('open', p, mode, poly.LOC[0]))
    if 'w' in mode or 'x' in mode or 'a' in mode or '+' in mode:
      if self.fail_write is not None:
        raise self.fail_write
      self.files[p] = Corrupt(zipfile.BadZipFile('truncated'))
      return FakeFile(self, p, mode)
    if self.fail_read is not None:
      raise self.fail_read
    if p not in self.files:
      raise FileNotFoundError(p)
    return FakeFile(self, p, mode)

  def get_data(self, package, resource):
    self.log.append(('get_data', package, resource, poly.LOC[0]))
    c = self.package.get(resource)
    if c is None:
      raise FileNotFoundError(resource)
    if isinstance(c, Exception):
      raise c
    return FakeBytes(c)


def _np_load(world):
  def load(f, *a, **k):
    if isinstance(f, FakePath):
      f = f.open('rb')
    if not isinstance(f, FakeFile):
      raise Unsupported('np.load of an unmodelled file', poly.LOC[0])
    c = f.fs.files.get(f.path)
    if isinstance(c, Corrupt):
      raise c.exc
    if c is None:
      raise EOFError('No data left in file')
    return Npz(c)
  return load


def _np_savez(world):
  def savez(f, *args, **kw):
    if isinstance(f, (FakePath, str)):
      f = world.fs.open(f, 'wb')
    if not isinstance(f, FakeFile):
      raise Unsupported('np.savez of an unmodelled file', poly.LOC[0])
    f.fs.log.append(('savez', f.path, poly.LOC[0]))
    fs = f.fs
    if getattr(fs, 'fail_savez', None) is not None:
      raise fs.fail_savez
    f.fs.files[f.path] = {k: (v.copy() if isinstance(v, Arr) else asarr(v, np_=True)) for k, v in kw.items()}
  return savez


class PoolModel:

  def __init__(self, *a, **k):
    pass

  def __enter__(self):
    return self

  def __exit__(self, *a):
    return False

  def starmap(self, f, xs, *a, **k):
    return [f(*x) for x in xs]

  def map(self, f, xs, *a, **k):
    return [f(x) for x in xs]

  def imap(self, f, xs, *a, **k):
    return iter([f(x) for x in xs])

  def imap_unordered(self, f, xs, *a, **k):
    raise Unsupported('imap_unordered')

  def close(self):
    pass

  def join(self):
    pass


# ---------------------------------------------------------------- sympy
EXACT = [False]       # model sympy by exact algebra (C30) instead of opaque symbols


class SymDummy:
  """Opaque symbolic value: every use except binding is unsupported."""

  def __init__(self, name):
    self._n = name

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    return SymDummy(f'{self._n}.{k}')

  def __call__(self, *a, **k):
    raise Unsupported(f'symbolic computation {self._n}', poly.LOC[0])


def _symbols(names, **k):
  n = names.replace(',', ' ').split()
  r = tuple(SymDummy(x) for x in n)
  return r if len(r) > 1 else r[0]


# ---------------------------------------------------------------- functools
def _lru_cache(maxsize=128, typed=False):
  def deco(f):
    cache = {}
    def g(*a, **k):
      try:
        key = (a, tuple(sorted(k.items())))
        hash(key)
      except TypeError as e:
        if any(isinstance(x, Arr) for x in list(a) + list(k.values())):
          raise TypeError("unhashable type: 'Array' (arguments of a cached function)") from e
        raise
      A.events().warn.append(('lru_cache', getattr(f, '__name__', '?'), poly.LOC[0]))
      if key not in cache:
        cache[key] = f(*a, **k)
        if A.STAGED[0] and any(isinstance(x, Arr) and x.traced for x in _tree_leaves(cache[key])):
          A.leak(f'a staged array is stored in the cache of {getattr(f, "__name__", "?")} and escapes its trace')
      return cache[key]
    g.__name__ = getattr(f, '__name__', 'cached')
    g.cache_clear = cache.clear
    g.__bindable__ = True
    g.__wrapped__ = f
    return g
  if callable(maxsize) and not isinstance(maxsize, int):
    f, maxsize = maxsize, 128
    return deco(f)
  return deco


def _dataclass(c=None, **kw):
  def d(c):
    if isinstance(c, ClassV):
      c.dataclass = True
    return c
  return d if c is None else d(c)


def make(world):
  WORLD[0] = world
  world.fs = FS()
  world.open_hook = world.fs.open
  L = {}
  jnp = make_numpy(False)
  npn = make_numpy(True)
  npn.put(load=_np_load(world), savez_compressed=_np_savez(world), savez=_np_savez(world))

  L['jax.numpy'] = jnp
  L['numpy'] = npn

  lax = NS('jax.lax')

  def clamp(lo, x, hi):
    return A.clip(asarr(x), lo, hi)

  def cond(p, t, f, *ops, **k):
    p = asarr(p)
    if p.is_const() and not p.traced:
      return t(*ops) if bool(p) else f(*ops)
    a, b = t(*ops), f(*ops)
    la, lb = _tree_leaves(a), _tree_leaves(b)
    if isinstance(a, (tuple, list)):
      return type(a)(A.where(p, x, y) for x, y in zip(la, lb))
    return A.where(p, a, b)

  def fori(lo, hi, body, init, **k):
    lo, hi = (int(v) for v in (lo, hi))
    x = init
    for i in range(lo, hi):
      x = body(Arr(A._obj(i), A.I32, False, True), x)
    return x

  def scan(f, init, xs=None, length=None, reverse=False, **k):
    n = length
    for l in _tree_leaves(xs):
      n = asarr(l).shape[0]
    c = init
    ys = []
    order = range(n - 1, -1, -1) if reverse else range(n)
    for i in order:
      x = _tree_map(lambda v: asarr(v)[i], xs)
      c, y = f(c, x)
      ys.append(y)
    if reverse:
      ys = ys[::-1]
    if not ys or ys[0] is None:
      return c, None
    return c, _tree_stack(ys, 0)

  def dot_general(a, b, dn, precision=None, preferred_element_type=None, **k):
    (ca, cb), (ba, bb) = dn
    a, b = asarr(a), asarr(b)
    Ls = 'abcdefghijklmnopqrstuvwxyz'
    la = list(Ls[:a.ndim])
    lb = list(Ls[a.ndim:a.ndim + b.ndim])
    for i, j in list(zip(ca, cb)) + list(zip(ba, bb)):
      lb[j] = la[i]
    out = [la[i] for i in ba] + [c for i, c in enumerate(la) if i not in ca and i not in ba]
    out += [c for j, c in enumerate(lb) if j not in cb and j not in bb]
    return A.einsum(f"{''.join(la)},{''.join(lb)}->{''.join(out)}", a, b, precision=precision)

  un = lambda n: (lambda x: A.unop(n, asarr(x)))
  lax.put(stop_gradient=_stop_gradient, erf=un('erf'), erfc=un('erfc'), exp=un('exp'), log=un('log'), sqrt=un('sqrt'), rsqrt=un('rsqrt'),
          expm1=un('expm1'), log1p=un('log1p'), tanh=un('tanh'), logistic=un('expit'), sin=un('sin'), cos=un('cos'),
          sign=jnp.sign, abs=jnp.abs, neg=lambda x: -asarr(x), square=jnp.square, reciprocal=lambda x: 1 / asarr(x), max=jnp.maximum, min=jnp.minimum, add=jnp.add, sub=jnp.subtract, mul=jnp.multiply, div=jnp.divide,
          pow=jnp.power, integer_pow=lambda x, n: asarr(x) ** n, lgamma=un('lgamma'), clamp=clamp, select=lambda c, a, b: A.where(c, a, b), cond=cond, fori_loop=fori, scan=scan, dot_general=dot_general,
          PrecisionLike=Dummy('PrecisionLike'), Precision=NS('Precision', dict(HIGHEST='highest', HIGH='high', DEFAULT='default')),
          convert_element_type=lambda x, d: asarr(x).astype(d), expand_dims=lambda x, d: A.expand_dims(x, tuple(d)), lt=jnp.less, gt=jnp.greater, le=jnp.less_equal, ge=jnp.greater_equal, eq=jnp.equal, ne=jnp.not_equal,
          concatenate=lambda xs, dimension: A.concatenate(xs, dimension), reshape=lambda x, s: asarr(x).reshape(s), transpose=lambda x, p: asarr(x).transpose(p), squeeze=lambda x, d: A.squeeze(x, tuple(d)), rev=lambda x, d: jnp.flip(x, tuple(d)),
          broadcast=None, iota=lambda d, n: jnp.arange(n, dtype=d), cumsum=lambda x, axis=0, reverse=False: jnp.cumsum(x, axis), cumprod=lambda x, axis=0, reverse=False: jnp.cumprod(x, axis))
  L['jax.lax'] = lax

  def hard_sigmoid(x):
    x = asarr(x)
    return A.clip(x / 6 + 0.5, 0, 1) if poly_mode() != 'ival' else A.unop('hard_sigmoid', x)

  def softmax(x, axis=-1, where=None, initial=None):
    x = asarr(x)
    m = _stop_gradient(A.reduce('max', x, axis, True))
    e = jnp.exp(x - m)
    return e / A.reduce('sum', e, axis, True)

  def one_hot(x, n, dtype=None, axis=-1):
    x = asarr(x)
    r = A.expand_dims(x, -1) == jnp.arange(n)
    return r.astype(fdef() if dtype is None else dtype)

  inits = NS('jax.nn.initializers')
  inits.put(zeros=InitModel('zeros'), ones=InitModel('ones'), lecun_normal=_mk_init('lecun_normal'), lecun_uniform=_mk_init('lecun_uniform'),
            glorot_normal=_mk_init('glorot_normal'), glorot_uniform=_mk_init('glorot_uniform'), he_normal=_mk_init('he_normal'), he_uniform=_mk_init('he_uniform'),
            xavier_normal=_mk_init('glorot_normal'), xavier_uniform=_mk_init('glorot_uniform'), kaiming_normal=_mk_init('he_normal'), kaiming_uniform=_mk_init('he_uniform'),
            variance_scaling=_mk_init('variance_scaling'), normal=_mk_init('normal'), uniform=_mk_init('uniform'), truncated_normal=_mk_init('truncated_normal'), constant=_mk_init('constant'), orthogonal=_mk_init('orthogonal'))
  L['jax.nn.initializers'] = inits
  jnn = NS('jax.nn')
  jnn.put(softplus=un('softplus'), sigmoid=un('expit'), silu=lambda x: asarr(x) * A.unop('expit', asarr(x)), swish=lambda x: asarr(x) * A.unop('expit', asarr(x)),
          relu=lambda x: A.binop('max', asarr(x), 0), relu6=lambda x: A.clip(asarr(x), 0, 6), hard_sigmoid=hard_sigmoid, hard_tanh=lambda x: A.clip(asarr(x), -1, 1), tanh=jnp.tanh, softmax=softmax, one_hot=one_hot, initializers=inits,
          log_sigmoid=lambda x: -A.unop('softplus', -asarr(x)), soft_sign=lambda x: asarr(x) / (abs(asarr(x)) + 1), gelu=un('gelu'), elu=un('elu'), leaky_relu=lambda x, negative_slope=0.01: A.where(asarr(x) >= 0, x, negative_slope * asarr(x)))
  L['jax.nn'] = jnn
  jrandom = NS('jax.random')
  jrandom.put(split=_split, normal=_draw('normal'), uniform=_uniform, truncated_normal=_truncated_normal,
              PRNGKey=lambda s: KeyV(('seed', s)), key=lambda s: KeyV(('seed', s)), fold_in=lambda k, d: KeyV(('fold', k.ident, repr(d))),
              bernoulli=_draw('bernoulli'), orthogonal=_draw('orthogonal'), ball=_draw('ball'), randint=_draw('randint'))
  L['jax.random'] = jrandom
  special = NS('jax.scipy.special')
  special.put(expit=un('expit'), erf=un('erf'), betaln=lambda a, b: A.binop('betaln', _inexact(a), _inexact(b)), gammaln=un('lgamma'),
              logsumexp=None, xlogy=lambda x, y: asarr(x) * jnp.log(y))
  L['jax.scipy.special'] = special
  jlin = NS('jax.scipy.linalg')

  def expm(x, **k):
    x = asarr(x)
    a = np.empty(x.shape, dtype=object)
    for b in np.ndindex(*x.shape[:-2]):
      key = tuple(poly.akey(v) for v in x.a[b].reshape(-1))
      d = set()
      for v in x.a[b].reshape(-1):
        d |= poly.deps(v)
      for i in np.ndindex(*x.shape[-2:]):
        a[b + i] = poly.var('expm', (key, i), deps=frozenset(d))
    return Arr(a, x.dtype, x.weak, x.traced)
  jlin.put(expm=expm)
  L['jax.scipy.linalg'] = jlin
  L['jax.scipy'] = NS('jax.scipy', dict(special=special, linalg=jlin))
  jops = NS('jax.ops')
  jops.put(segment_sum=_segment('sum'), segment_max=_segment('max'), segment_min=_segment('min'), segment_prod=_segment('prod'))
  L['jax.ops'] = jops
  dts = NS('jax.dtypes')
  dts.put(canonicalize_dtype=lambda d, **k: A.canon(d), result_type=jnp.result_type, issubdtype=jnp.issubdtype, bfloat16=A.DType('bfloat16'))
  L['jax.dtypes'] = dts
  tu = NS('jax.tree_util')
  tm = lambda f, t, *r: _tree_map(f, t)
  tu.put(tree_map=tm, tree_leaves=_tree_leaves)
  L['jax.tree_util'] = tu
  debug = NS('jax.debug')
  debug.put(print=lambda *a, **k: None)
  jax = NS('jax')
  jax.put(numpy=jnp, lax=lax, nn=jnn, random=jrandom, scipy=L['jax.scipy'], ops=jops, dtypes=dts, tree_util=tu, tree=NS('jax.tree', dict(map=tm, leaves=_tree_leaves)),
          vmap=vmap, jit=jit, custom_jvp=CustomJVP, custom_vjp=CustomVJP, jvp=_jvp, grad=_grad, value_and_grad=_grad, ensure_compile_time_eval=EvalCtx, named_scope=Ctx,
          Array=Arr, checkpoint=lambda f, **k: f, remat=lambda f, **k: f, debug=debug, default_matmul_precision=Ctx, device_get=lambda x: x, device_put=lambda x, *a: x,
          named_call=lambda f, **k: f, typing=DummyNS('jax.typing'), core=DummyNS('jax.core'), eval_shape=None)
  L['jax'] = jax
  L['jax.typing'] = DummyNS('jax.typing')

  def _cplx(name):
    def f(key, upper=None, shape=(), dtype=None):
      return _draw(name)(key, shape, dtype, upper=upper)
    return f
  ji = NS('jax._src.nn.initializers')
  ji.put(_complex_truncated_normal=_cplx('complex_truncated_normal'),
         _complex_uniform=lambda key, shape=(), dtype=None: _draw('complex_uniform')(key, shape, dtype))
  L['jax._src.nn.initializers'] = ji

  linen = NS('flax.linen')
  ident = lambda f: f
  linen.put(Module=FlaxModule, compact=ident, nowrap=ident, Dense=FlaxDense, initializers=inits, dtypes=NS('flax.linen.dtypes', dict(promote_dtype=promote_dtype)),
            softplus=jnn.softplus, jit=lambda c, **k: c, vmap=None, merge_param=None, Embed=FlaxEmbed, named_call=ident, remat=lambda c, **k: c, checkpoint=lambda c, **k: c,
            silu=jnn.silu, relu=jnn.relu, sigmoid=jnn.sigmoid, tanh=jnn.tanh)
  L['flax.linen'] = linen
  L['flax.linen.dtypes'] = linen.dtypes
  L['flax'] = NS('flax', dict(linen=linen))

  L['math'] = NS('math', {k: _math_wrap(getattr(math, k)) for k in dir(math) if not k.startswith('_')})
  L['itertools'] = NS('itertools', {k: getattr(itertools, k) for k in dir(itertools) if not k.startswith('_')})
  L['functools'] = NS('functools', dict(partial=functools.partial, reduce=functools.reduce, lru_cache=_lru_cache, cache=lambda f: _lru_cache(None)(f), wraps=lambda w, **k: (lambda f: f), cached_property=None, singledispatch=None, total_ordering=ident, cmp_to_key=functools.cmp_to_key))
  L['operator'] = NS('operator', {k: getattr(operator, k) for k in dir(operator) if not k.startswith('_')})
  L['collections'] = NS('collections', dict(defaultdict=collections.defaultdict, OrderedDict=collections.OrderedDict, Counter=collections.Counter, deque=collections.deque, namedtuple=collections.namedtuple, ChainMap=collections.ChainMap))
  L['collections.abc'] = DummyNS('collections.abc')
  L['more_itertools'] = NS('more_itertools', dict(distinct_permutations=_distinct_permutations, pairwise=itertools.pairwise, chunked=lambda it, n: (lambda l: [l[i:i + n] for i in range(0, len(l), n)])(list(it)), powerset=None, flatten=itertools.chain.from_iterable, first=lambda it, *d: next(iter(it), *d), last=lambda it: list(it)[-1], nth=None, take=lambda n, it: list(itertools.islice(it, n))))
  L['dataclasses'] = NS('dataclasses', dict(field=lambda **k: FieldSpec(**k), dataclass=_dataclass, fields=None, replace=None, MISSING=_MISSING))
  typing = {n: Dummy(n) for n in ('Any Callable Dict List Optional Sequence Tuple Union Literal IO Iterable Iterator Mapping Set Type '
                                  'ClassVar Final Generator Annotated TypeAlias Self overload Hashable Text NoReturn Collection Concatenate ParamSpec').split()}
  typing.update(TypedDict=TypedDictBase, Protocol=ProtocolBase, NamedTuple=NamedTupleBase, Generic=GenericBase, TypeVar=lambda *a, **k: Dummy('TypeVar'), cast=lambda t, v: v,
                TYPE_CHECKING=False, runtime_checkable=ident, final=ident, overload=ident, NewType=lambda n, t: t, get_args=lambda t: ())
  L['typing'] = NS('typing', typing)
  L['typing_extensions'] = L['typing']
  L['jaxtyping'] = _JaxTyping()
  L['__future__'] = NS('__future__')
  L['warnings'] = NS('warnings', dict(warn=lambda *a, **k: A.events().warn.append(('warn', a, poly.LOC[0])), catch_warnings=Ctx, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None))
  log = {n: (lambda lv: (lambda *a, **k: A.events().warn.append(('log', lv, a, poly.LOC[0]))))(n) for n in ('info warning error exception debug fatal log set_verbosity warn vlog log_first_n').split()}
  log.update(INFO=0, WARNING=1, ERROR=2, DEBUG=3)
  absl_log = NS('absl.logging', log)
  L['absl'] = NS('absl', dict(logging=absl_log))
  L['absl.logging'] = absl_log
  lg = dict(log)
  lg['getLogger'] = lambda *a: absl_log
  L['logging'] = NS('logging', lg)
  L['etils'] = NS('etils', dict(epath=NS('epath', dict(Path=lambda p='': p if isinstance(p, FakePath) else FakePath(world.fs, p), PathLike=Dummy('PathLike')))))
  L['etils.epath'] = L['etils'].epath
  L['pathlib'] = L['etils'].epath
  L['pkgutil'] = NS('pkgutil', dict(get_data=lambda n, p: world.fs.get_data(n, p)))
  L['io'] = NS('io', dict(BytesIO=BytesIOModel))
  L['zipfile'] = NS('zipfile', dict(BadZipFile=zipfile.BadZipFile, BadZipfile=zipfile.BadZipFile))
  L['multiprocessing'] = NS('multiprocessing', dict(Pool=PoolModel, cpu_count=lambda: 8, freeze_support=lambda: None))
  L['argparse'] = DummyNS('argparse')
  L['contextlib'] = NS('contextlib', dict(suppress=_Suppress, nullcontext=_NullCtx))
  def _os_replace(a, b):
    return FakePath(world.fs, str(a)).replace(FakePath(world.fs, str(b)))
  L['os'] = NS('os', dict(replace=_os_replace, rename=_os_replace, getpid=lambda: 4242, fspath=str, environ={}, path=NS('os.path', dict(exists=lambda p: FakePath(world.fs, p).exists(), join=lambda *p: '/'.join(map(str, p)), dirname=lambda p: str(p).rsplit('/', 1)[0])), remove=lambda p: FakePath(world.fs, p).unlink(), unlink=lambda p: FakePath(world.fs, p).unlink()))
  L['os.path'] = L['os'].path
  L['tempfile'] = NS('tempfile', dict(NamedTemporaryFile=None))
  L['threading'] = NS('threading', dict(Lock=Ctx, RLock=Ctx))
  L['time'] = NS('time', {})
  L['random'] = NS('random', {})
  L['copy'] = NS('copy', dict(copy=_copy, deepcopy=_copy))
  sp = NS('sympy')
  sp.put(symbols=_symbols, Poly=SymDummy('Poly'), S=SymDummy('S'), Expr=SymDummy('Expr'), Symbol=SymDummy('Symbol'), simplify=lambda x: x, Matrix=SymDummy('Matrix'))
  for n in 'zeros cos sin sqrt factorial factorial2 binomial pi I Rational Integer Float nsimplify expand eye'.split():
    sp._d[n] = SymDummy(n)
  L['sympy'] = sp
  L['sympy.physics.wigner'] = NS('wigner', dict(clebsch_gordan=SymDummy('clebsch_gordan'), wigner_3j=SymDummy('wigner_3j')))
  if EXACT[0]:
    from . import exact
    sp._d.update(exact.MODEL)
    L['sympy.physics.wigner']._d.update(exact.WIGNER)
  for ns in L.values():
    if isinstance(ns, NS):
      for k in [k for k, v in ns._d.items() if v is None and k not in ('newaxis',)]:
        del ns._d[k]
  return L


def _copy(x):
  if isinstance(x, Arr):
    return x.copy()
  if isinstance(x, list):
    return list(x)
  if isinstance(x, dict):
    return dict(x)
  return x


class _Suppress:

  def __init__(self, *t):
    self.t = t

  def __enter__(self):
    return self

  def __exit__(self, et, e, tb):
    return et is not None and issubclass(et, self.t)


class _NullCtx:

  def __init__(self, v=None):
    self.v = v

  def __enter__(self):
    return self.v

  def __exit__(self, *a):
    return False


class _JaxTyping:
  Array = Arr

  def __getattr__(self, n):
    if n.startswith('__'):
      raise AttributeError(n)
    if n == 'jaxtyped':
      return lambda *a, **k: (lambda f: f)
    return Dummy(f'jaxtyping.{n}')


def _math_wrap(f):
  if not callable(f):
    return f
  def g(*a, **k):
    return f(*a, **k)
  g.__name__ = getattr(f, '__name__', '?')
  return g


def _distinct_permutations(it, r=None):
  """Same order as more_itertools.distinct_permutations (lexicographic)."""
  items = sorted(it)
  n = len(items)
  out = []
  a = list(items)
  while True:
    out.append(tuple(a))
    i = n - 2
    while i >= 0 and a[i] >= a[i + 1]:
      i -= 1
    if i < 0:
      break
    j = n - 1
    while a[i] >= a[j]:
      j -= 1
    a[i], a[j] = a[j], a[i]
    a[i + 1:] = a[i + 1:][::-1]
  return iter(out)
