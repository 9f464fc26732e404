"""Second derivatives in the interval domain.

A `Du` is an element with a forward-mode tangent: p is the value and d the tangent, both
intervals that carry their own reverse-mode derivative.  Interpreting a program over `Du`
elements follows the differentiation rules of the library operation by operation, so that
the derivative of d is the second derivative as differentiating twice (forward, then
reverse) computes it, including 0 * inf effects of unselected branches.
"""

import math

from . import arr as A
from . import elem
from . import ival
from .errors import Unsupported
from .ival import Iv


def _add(a, b):
  return b if a is None else a if b is None else a + b


def _mul(a, b):
  return None if a is None else a * b


class Du(elem.Elem):
  __slots__ = ('p', 'd')

  def __init__(self, p, d=None):
    self.p = p
    self.d = d

  def __repr__(self):
    return f'<{self.p!r}; {self.d!r}>'

  def __add__(self, o):
    o = lift(o)
    return Du(self.p + o.p, _add(self.d, o.d))

  __radd__ = __add__

  def __neg__(self):
    return Du(-self.p, None if self.d is None else -self.d)

  def __pos__(self):
    return self

  def __sub__(self, o):
    return self + -lift(o)

  def __rsub__(self, o):
    return lift(o) + -self

  def __mul__(self, o):
    o = lift(o)
    if o is self:
      return Du(self.p * self.p, _add(_mul(self.d, self.p), _mul(self.d, self.p)))
    return Du(self.p * o.p, _add(_mul(self.d, o.p), _mul(o.d, self.p)))

  __rmul__ = __mul__

  def __truediv__(self, o):
    o = lift(o)
    d = None if self.d is None else self.d / o.p
    if o.d is not None:
      d = _add(d, -o.d * self.p * o.p ** -2)
    return Du(self.p / o.p, d)

  def __rtruediv__(self, o):
    return lift(o) / self

  def __pow__(self, n):
    if isinstance(n, bool):
      n = int(n)
    if isinstance(n, float) and n == int(n):
      n = int(n)
    if isinstance(n, int):
      if n == 0:
        return 1.0
      return Du(self.p ** n, _mul(self.d, float(n) * self.p ** (n - 1) if n != 1 else 1.0))
    return Du.apply('pow', (self, n))

  def __rpow__(self, b):
    return Du.apply('pow', (b, self))

  def __abs__(self):
    return Du.apply('abs', (self,))

  def __lt__(self, o):
    return self.p < lift(o).p

  def __gt__(self, o):
    return self.p > lift(o).p

  def __le__(self, o):
    return self.p <= lift(o).p

  def __ge__(self, o):
    return self.p >= lift(o).p

  def __eq__(self, o):
    return self.p == lift(o).p

  def __ne__(self, o):
    return self.p != lift(o).p

  __hash__ = None

  def truth(self):
    return self.p.truth()

  def where(self, a, b):
    return self.p.where(a, b)

  def __bool__(self):
    raise Unsupported('truth of an interval')

  def __float__(self):
    return float(self.p)

  @classmethod
  def apply(cls, name, args):
    if name in ('isnan', 'isinf', 'isfinite'):
      return Iv.apply(name, (args[0].p,))
    if name in ('floor', 'ceil', 'round', 'sign'):
      return Du(ival.stop_gradient(Iv.apply(name, (ival.stop_gradient(args[0].p),))))
    if name in ('max', 'min'):
      r = args[0]
      for b in args[1:]:
        r = _ext(name, lift(r), lift(b))
      return r
    if name == 'pow':
      return _pow(*args)
    if name in ('logaddexp', 'hypot'):
      a, b = lift(args[0]), lift(args[1])
      if name == 'hypot':
        return Du.apply('sqrt', (a * a + b * b,))
      out = Iv.apply(name, (a.p, b.p))
      w = Iv.apply('expit', (a.p - b.p,))
      return Du(out, _add(_mul(a.d, w), _mul(b.d, 1.0 - w)))
    f = _FN.get(name)
    if f is None:
      raise Unsupported(f'second derivative of {name} in the interval domain')
    return f(lift(args[0]))


def lift(x):
  if isinstance(x, Du):
    return x
  return Du(ival.lift(x))


def _ext(name, a, b):
  p = Iv.apply(name, (a.p, b.p))
  if a.d is None and b.d is None:
    return Du(p)
  x, y = ival._strip(a.p).v, ival._strip(b.p).v
  gt, lt, eq = ival._lt(y, x), ival._lt(x, y), ival._eq(x, y)
  if name == 'min':
    gt, lt = lt, gt
  if gt is True:
    w = 1.0
  elif lt is True:
    w = 0.0
  elif eq is True:
    w = 0.5
  else:
    w = Iv(0.0, 1.0)
  return Du(p, _add(_mul(a.d, w), _mul(b.d, 1.0 - w)))


def _pow(a, b):
  if not isinstance(b, elem.Elem):
    b = float(b)
    if b == int(b):
      return lift(a) ** int(b)
    a = lift(a)
    return Du(Iv.apply('pow', (a.p, b)), _mul(a.d, b * Iv.apply('pow', (a.p, b - 1.0))))
  if not isinstance(a, elem.Elem) and float(a) > 0:
    return Du.apply('exp', (lift(b) * math.log(a),))
  raise Unsupported('general power in the interval domain')


def _un(name, rule):
  def f(x):
    out = Iv.apply(name, (x.p,))
    return Du(out, None if x.d is None else rule(x.d, x.p, out))
  return f


def _fn(name, *a):
  return Iv.apply(name, a)


def _sinc_d(x):
  zero = x == 0.0
  safe = elem.where(zero, 1.0, x) if not isinstance(zero, bool) or zero else x
  y = math.pi * safe
  r = (_fn('cos', y) * y - _fn('sin', y)) / (y * safe) if isinstance(safe, Iv) else (math.cos(y) * y - math.sin(y)) / (y * safe)
  return elem.where(zero, (-math.pi ** 2 / 3) * x, r)


_FN = {
    'exp': _un('exp', lambda g, x, o: g * o),
    'expm1': _un('expm1', lambda g, x, o: g * (o + 1.0)),
    'log': _un('log', lambda g, x, o: g / x),
    'log1p': _un('log1p', lambda g, x, o: g / (x + 1.0)),
    'sqrt': _un('sqrt', lambda g, x, o: g * (0.5 / o)),
    'rsqrt': _un('rsqrt', lambda g, x, o: g * (-0.5 * (o / x))),
    'abs': _un('abs', lambda g, x, o: g * _fn('sign', ival._strip(x))),
    'cos': _un('cos', lambda g, x, o: -(g * _fn('sin', x))),
    'sin': _un('sin', lambda g, x, o: g * _fn('cos', x)),
    'tanh': _un('tanh', lambda g, x, o: (g + g * o) * (1.0 - o)),
    'expit': _un('expit', lambda g, x, o: g * (o * (1.0 - o))),
    'softplus': _un('softplus', lambda g, x, o: g * _fn('expit', x)),
    'erf': _un('erf', lambda g, x, o: (2 / math.sqrt(math.pi)) * (g * _fn('exp', -(x * x)))),
    'arccos': _un('arccos', lambda g, x, o: -(g * _fn('rsqrt', 1.0 - x * x))),
    'arctan': _un('arctan', lambda g, x, o: g / (1.0 + x * x)),
    'sinc': _un('sinc', lambda g, x, o: g * _sinc_d(x)),
}
_FN['exp2'] = lambda x: _FN['exp'](x * math.log(2))
_FN['arcsin'] = lambda x: math.pi / 2 - _FN['arccos'](x)
_FN['log2'] = lambda x: _FN['log'](x) / math.log(2)
_FN['log10'] = lambda x: _FN['log'](x) / math.log(10)
_FN['tan'] = lambda x: _FN['sin'](x) / _FN['cos'](x)
_FN['cosh'] = lambda x: (_FN['exp'](x) + _FN['exp'](-x)) / 2.0
_FN['sinh'] = lambda x: (_FN['exp'](x) - _FN['exp'](-x)) / 2.0
_FN['erfc'] = lambda x: 1.0 - _FN['erf'](x)
_FN['inv'] = lambda x: 1.0 / x
_FN['hard_sigmoid'] = lambda x: Du.apply('min', (Du.apply('max', (x + 3.0, 0.0)), 6.0)) / 6.0


def select(c, a, b):
  a, b = lift(a), lift(b)
  p = ival.lift(ival.select(c, a.p, b.p))
  if a.d is None and b.d is None:
    return Du(p)
  z = ival.lift(0.0)
  return Du(p, ival.lift(ival.select(c, a.d if a.d is not None else z, b.d if b.d is not None else z)))


def strip(x):
  return Du(ival._strip(x.p))


def has(full):
  return any(isinstance(x, A.Arr) and any(isinstance(v, Du) for v in x.a.flat) or isinstance(x, Du) for x in full)


def call_custom_jvp(c, full):
  prim, tang, nond = [], [], []
  for i, x in enumerate(full):
    if i in c.nondiff:
      nond.append(x)
      continue
    x = A.asarr(x)
    prim.append(x._w(A.apply(lambda v: v.p if isinstance(v, Du) else v, x.a)))
    tang.append(x._w(A.apply(lambda v: (v.d if v.d is not None else ival.lift(0.0)) if isinstance(v, Du) else ival.lift(0.0), x.a)))
  out, tout = c.rule(*nond, tuple(prim), tuple(tang))
  out, tout = A.asarr(out), A.asarr(tout)
  if out.shape != tout.shape:
    raise Unsupported(f'custom derivative of {c.__name__}: tangent shape {tout.shape} for output {out.shape}')
  return out._w(A.apply(lambda p, d: Du(ival.lift(p), ival.lift(d)), out.a, tout.a))


def var(lo, hi):
  return Du(ival.var(lo, hi), ival.lift(1.0))
