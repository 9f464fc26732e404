"""Interval domain with single-precision effects and first derivatives.

An `Iv` abstracts the set of float32 values an element may take on one cell of
the input partition: a closed interval [lo, hi] (endpoints may be infinite), a
flag telling whether NaN is possible, and optionally the same for the derivative
with respect to the cell's input variable.  lo > hi means that no ordinary value
is possible (the element is certainly NaN).

The derivative follows reverse-mode differentiation of the program text: the
unselected operand of a selection receives a zero cotangent, and 0 * inf = NaN.
"""

import math

import numpy as np

from . import arr as A
from . import elem
from .errors import Unsupported

INF = math.inf
FMAX = 3.4028234663852886e38
TINY = 1.1754943508222875e-38
CAP = 1e300
OVER = 3.41e38
EMPTY = (INF, -INF, True)


# ------------------------------------------------------------------ triples
def _dn(x, ulp=1):
  """Largest-lower neighbour used for outward rounding (float32)."""
  if x != x or x in (INF, -INF):
    return x
  f = float(np.float32(x))
  if f == x:
    return x
  if f > x:
    f = float(np.nextafter(np.float32(f), np.float32(-INF)))
  for _ in range(ulp - 1):
    f = float(np.nextafter(np.float32(f), np.float32(-INF)))
  return f


def _up(x, ulp=1):
  return -_dn(-x, ulp)


def _norm(lo, hi, nan, ulp=1):
  """Rounds outward to float32, with overflow and underflow effects."""
  if lo > hi:
    return EMPTY
  with np.errstate(all='ignore'):
    lo2, hi2 = _dn(lo, ulp), _up(hi, ulp)
  # overflow of a lower (upper) bound is certain only clearly beyond the range
  if lo > OVER:
    lo2 = INF
  if hi2 > FMAX:
    hi2 = INF
  if hi < -OVER:
    hi2 = -INF
  if lo2 < -FMAX:
    lo2 = -INF
  if 0 < lo2 < TINY:
    lo2 = 0.0
  if -TINY < hi2 < 0:
    hi2 = 0.0
  return (lo2, hi2, nan)


def _comb(vals, nan):
  v = [x for x in vals if x == x]
  if len(v) != len(vals):
    nan = True
  if not v:
    return EMPTY
  return (min(v), max(v), nan)


def _mulf(a, b):
  if (a == 0 and b in (INF, -INF)) or (b == 0 and a in (INF, -INF)):
    return math.nan
  r = a * b
  return r


def t_add(a, b):
  if a[0] > a[1] or b[0] > b[1]:
    return EMPTY
  nan = a[2] or b[2]
  if (a[1] == INF and b[0] == -INF) or (a[0] == -INF and b[1] == INF):
    nan = True
  c = []
  lo = a[0] + b[0]
  hi = a[1] + b[1]
  if lo != lo:
    # one is -inf at its lower end while the other is certainly +inf (or vice versa)
    if a[0] == a[1] and b[0] == b[1]:
      return EMPTY
    lo = INF if (a[0] == INF or b[0] == INF) else -INF
  if hi != hi:
    if a[0] == a[1] and b[0] == b[1]:
      return EMPTY
    hi = -INF if (a[1] == -INF or b[1] == -INF) else INF
  return (lo, hi, nan)


def t_neg(a):
  return (-a[1], -a[0], a[2]) if a[0] <= a[1] else EMPTY


def t_mul(a, b):
  if a[0] > a[1] or b[0] > b[1]:
    return EMPTY
  nan = a[2] or b[2]
  za, zb = a[0] <= 0 <= a[1], b[0] <= 0 <= b[1]
  ia = a[1] == INF or a[0] == -INF
  ib = b[1] == INF or b[0] == -INF
  if (za and ib) or (zb and ia):
    nan = True
  vals = [v for v in (_mulf(x, y) for x in (a[0], a[1]) for y in (b[0], b[1])) if v == v]
  # 0*inf corners are NaN; a zero times the finite part of the other factor is 0
  fa = not (a[0] == a[1] and abs(a[0]) == INF)
  fb = not (b[0] == b[1] and abs(b[0]) == INF)
  if (za and fb) or (zb and fa):
    vals.append(0.0)
  if not vals:
    return EMPTY
  return (min(vals), max(vals), nan)


def t_inv(b):
  """1/b."""
  if b[0] > b[1]:
    return EMPTY
  lo, hi = b[0], b[1]
  if lo == hi == 0:
    return (INF, INF, b[2])
  if lo > 0 or hi < 0:
    x = 0.0 if abs(lo) == INF else 1 / lo
    y = 0.0 if abs(hi) == INF else 1 / hi
    return (min(x, y), max(x, y), b[2])
  if lo == 0:
    return (0.0 if hi == INF else 1 / hi, INF, b[2])
  if hi == 0:
    return (-INF, 0.0 if lo == -INF else 1 / lo, b[2])
  return (-INF, INF, b[2])


def t_div(a, b):
  if a[0] > a[1] or b[0] > b[1]:
    return EMPTY
  nan = a[2] or b[2]
  za, zb = a[0] <= 0 <= a[1], b[0] <= 0 <= b[1]
  ia = a[1] == INF or a[0] == -INF
  ib = b[1] == INF or b[0] == -INF
  if (za and zb) or (ia and ib):
    nan = True
  # certain NaN
  if a[0] == a[1] == 0 and b[0] == b[1] == 0:
    return EMPTY
  if a[0] == a[1] and abs(a[0]) == INF and b[0] == b[1] and abs(b[0]) == INF:
    return EMPTY
  if zb:
    if b[0] == b[1] == 0:
      if a[0] > 0:
        return (INF, INF, nan)
      if a[1] < 0:
        return (-INF, -INF, nan)
      return (-INF if a[0] < 0 else INF, INF if a[1] > 0 else -INF, nan) if not (a[0] == a[1] == 0) else EMPTY
    if a[0] == a[1] == 0:
      return (0.0, 0.0, True)
    if b[0] < 0 < b[1]:
      return (-INF, INF, nan)
    s = 1 if b[0] == 0 else -1
    mag = b[1] if s > 0 else -b[0]
    im = 0.0 if mag == INF else 1 / mag
    lo, hi = (a[0], a[1]) if s > 0 else (-a[1], -a[0])
    rlo = -INF if lo < 0 else (lo * im if not (lo == INF and im == 0) else 0.0)
    rhi = INF if hi > 0 else (hi * im if not (hi == -INF and im == 0) else 0.0)
    return (rlo, rhi, nan)
  vals = []
  for x in (a[0], a[1]):
    for y in (b[0], b[1]):
      if abs(x) == INF and abs(y) == INF:
        vals.append(math.nan)
      elif abs(y) == INF:
        vals.append(0.0)
      else:
        vals.append(x / y)
  r = _comb(vals, nan)
  if r[0] > r[1]:
    return EMPTY
  if ia and ib:
    # finite/inf and inf/finite combinations
    return (min(r[0], 0.0) if a[0] < INF else r[0], max(r[1], 0.0), True)
  return r


def t_join(a, b):
  if a[0] > a[1]:
    return (b[0], b[1], True)
  if b[0] > b[1]:
    return (a[0], a[1], True)
  return (min(a[0], b[0]), max(a[1], b[1]), a[2] or b[2])


def t_bad_must(t):
  """Certainly NaN or infinite."""
  return t[0] > t[1] or (t[0] == t[1] and abs(t[0]) == INF) or t[0] == INF or t[1] == -INF


def t_bad_may(t):
  return t[2] or t[0] > t[1] or t[0] == -INF or t[1] == INF


def t_cap(t):
  """Derivatives: finite intermediate overflow is not an infinity."""
  return t


ZERO = (0.0, 0.0, False)
ONE = (1.0, 1.0, False)


def d_mul(t, loc):
  """Derivative product t * loc (t is None for a symbolic zero)."""
  if t is None:
    return None
  r = t_mul(t, loc)
  if r[0] <= r[1]:
    fin = abs(t[0]) != INF and abs(t[1]) != INF and abs(loc[0]) != INF and abs(loc[1]) != INF
    if fin:
      r = (max(r[0], -CAP), min(r[1], CAP), r[2])
  return r


def d_add(a, b):
  if a is None:
    return b
  if b is None:
    return a
  return t_add(a, b)


def d_neg(a):
  return None if a is None else t_neg(a)


# ---------------------------------------------------------------- functions
def _mono(f, a, ulp=2):
  """Monotone increasing function on a triple."""
  if a[0] > a[1]:
    return EMPTY
  return _norm(f(a[0]), f(a[1]), a[2], ulp)


def _exp(x):
  if x == INF:
    return INF
  if x == -INF:
    return 0.0
  try:
    return math.exp(x)
  except OverflowError:
    return INF


def _expm1(x):
  if x == INF:
    return INF
  if x == -INF:
    return -1.0
  try:
    return math.expm1(x)
  except OverflowError:
    return INF


def _log(x):
  if x <= 0:
    return -INF
  if x == INF:
    return INF
  return math.log(x)


def _log1p(x):
  if x <= -1:
    return -INF
  if x == INF:
    return INF
  return math.log1p(x)


def _tanh(x):
  return math.tanh(x)


def _softplus(x):
  if x == INF:
    return INF
  if x == -INF:
    return 0.0
  return max(x, 0.0) + math.log1p(math.exp(-abs(x)))


def _expit(x):
  if x == INF:
    return 1.0
  if x == -INF:
    return 0.0
  if x >= 0:
    return 1 / (1 + math.exp(-x))
  e = math.exp(x)
  return e / (1 + e)


def _sq(a):
  if a[0] > a[1]:
    return EMPTY
  x, y = a[0] * a[0], a[1] * a[1]
  lo = 0.0 if a[0] <= 0 <= a[1] else min(x, y)
  return (lo, max(x, y), a[2])


def _periodic(f, a, maxima):
  """cos/sin with extrema at maxima + 2k pi (value 1) and +pi (value -1)."""
  lo, hi, nan = a
  if lo > hi:
    return EMPTY
  if abs(lo) == INF or abs(hi) == INF:
    if lo == hi:
      return EMPTY
    return (-1.0, 1.0, True)
  if hi - lo >= 2 * math.pi:
    return (-1.0, 1.0, nan)
  vals = [f(lo), f(hi)]
  k = math.ceil((lo - maxima) / (2 * math.pi))
  if maxima + 2 * math.pi * k <= hi:
    vals.append(1.0)
  k = math.ceil((lo - maxima - math.pi) / (2 * math.pi))
  if maxima + math.pi + 2 * math.pi * k <= hi:
    vals.append(-1.0)
  # argument rounding of large arguments
  w = 6e-8 * max(abs(lo), abs(hi))
  return (max(-1.0, min(vals) - w), min(1.0, max(vals) + w), nan)


def _cos(a):
  return _periodic(math.cos, a, 0.0)


def _sin(a):
  return _periodic(math.sin, a, math.pi / 2)


def _ipow(a, n):
  if n == 0:
    return (1.0, 1.0, False)
  if a[0] > a[1]:
    return EMPTY
  def p(x):
    try:
      return x ** n
    except OverflowError:
      return INF if x > 0 or n % 2 == 0 else -INF
  if n < 0:
    return t_inv(_norm(*_ipow(a, -n)))
  if n % 2 == 1:
    return (p(a[0]), p(a[1]), a[2])
  lo, hi = p(a[0]), p(a[1])
  return (0.0 if a[0] <= 0 <= a[1] else min(lo, hi), max(lo, hi), a[2])


class Iv(elem.Elem):
  __slots__ = ('v', 't')

  def __init__(self, lo, hi, nan=False, t=None):
    self.v = (float(lo), float(hi), nan)
    self.t = t

  @staticmethod
  def of(v, t=None, ulp=1):
    o = Iv.__new__(Iv)
    o.v = _norm(v[0], v[1], v[2], ulp) if v[0] <= v[1] else EMPTY
    o.t = t
    return o

  @property
  def lo(self):
    return self.v[0]

  @property
  def hi(self):
    return self.v[1]

  def __repr__(self):
    s = f'[{self.v[0]:.6g}, {self.v[1]:.6g}]' if self.v[0] <= self.v[1] else 'NaN'
    if self.v[2] and self.v[0] <= self.v[1]:
      s += '|NaN'
    if self.t is not None:
      s += f' d=[{self.t[0]:.4g}, {self.t[1]:.4g}{"|NaN" if self.t[2] else ""}]' if self.t[0] <= self.t[1] else ' d=NaN'
    return s

  def __add__(self, o):
    o = lift(o)
    return Iv.of(t_add(self.v, o.v), d_add(self.t, o.t))

  __radd__ = __add__

  def __neg__(self):
    return Iv.of(t_neg(self.v), d_neg(self.t))

  def __pos__(self):
    return self

  def __sub__(self, o):
    o = lift(o)
    if o is self:
      z = t_add(self.v, t_neg(self.v))
      if not t_bad_may(z):
        return Iv.of((0.0, 0.0, False), None if self.t is None else ZERO)
    return Iv.of(t_add(self.v, t_neg(o.v)), d_add(self.t, d_neg(o.t)))

  def __rsub__(self, o):
    return lift(o) - self

  def __mul__(self, o):
    o = lift(o)
    if o is self:
      return Iv.of(_sq(self.v), d_mul(self.t, t_mul((2.0, 2.0, False), self.v)))
    return Iv.of(t_mul(self.v, o.v), d_add(d_mul(self.t, o.v), d_mul(o.t, self.v)))

  __rmul__ = __mul__

  def __truediv__(self, o):
    o = lift(o)
    v = t_div(self.v, o.v)
    t = None
    if self.t is not None:
      t = t_div(self.t, o.v)
    if o.t is not None:
      # -(g * x) * y**-2
      y2 = t_inv(_norm(*_sq(o.v)))
      t = d_add(t, d_neg(d_mul(d_mul(o.t, self.v), y2)))
    return Iv.of(v, t)

  def __rtruediv__(self, o):
    return lift(o) / self

  def __pow__(self, n):
    if isinstance(n, Iv):
      return Iv.apply('pow', (self, n))
    if isinstance(n, bool):
      n = int(n)
    if isinstance(n, float) and n == int(n):
      n = int(n)
    if isinstance(n, int):
      if n == 0:
        return 1.0
      v = _ipow(self.v, n)
      t = None
      if self.t is not None:
        t = self.t if n == 1 else d_mul(self.t, t_mul((float(n), float(n), False), _norm(*_ipow(self.v, n - 1))))
      return Iv.of(v, t, 2)
    if n == 0.5:
      return Iv.apply('sqrt', (self,))
    return Iv.apply('pow', (self, n))

  def __rpow__(self, b):
    return Iv.apply('pow', (b, self))

  def __abs__(self):
    return Iv.apply('abs', (self,))

  # comparisons -> True / False / Bo
  def __lt__(self, o):
    return _lt(self.v, lift(o).v)

  def __gt__(self, o):
    return _lt(lift(o).v, self.v)

  def __le__(self, o):
    return _le(self.v, lift(o).v)

  def __ge__(self, o):
    return _le(lift(o).v, self.v)

  def __eq__(self, o):
    return _eq(self.v, lift(o).v)

  def __ne__(self, o):
    return _bnot(_eq(self.v, lift(o).v))

  __hash__ = None

  def __mod__(self, o):
    raise Unsupported('mod in the interval domain')

  def truth(self):
    return _bnot(_eq(self.v, ZERO))

  def __invert__(self):
    raise Unsupported('bitwise not of an interval')

  def where(self, a, b):
    c = self.truth()
    if isinstance(c, bool):
      return elem.where(c, a, b)
    return c.where(a, b)

  def __bool__(self):
    raise Unsupported('truth of an interval')

  def __float__(self):
    if self.v[0] == self.v[1]:
      return self.v[0]
    raise Unsupported('float of an interval')

  def __and__(self, o):
    return self.truth() & o

  def __or__(self, o):
    return self.truth() | o

  @classmethod
  def apply(cls, name, args):
    f = _FN.get(name)
    if f is None:
      raise Unsupported(f'function {name} in the interval domain')
    for a in args:
      if _foreign(a):
        from . import second
        return second.Du.apply(name, args)
    return f(*args)


def _foreign(x):
  """An element of the domain with a second derivative (see second.py)."""
  return isinstance(x, elem.Elem) and not isinstance(x, (Iv, Bo))


def _promote(name):
  f = getattr(Iv, name)

  def g(self, o):
    if _foreign(o):
      from . import second
      return getattr(second.lift(self), name)(o)
    return f(self, o)
  setattr(Iv, name, g)


for _n in ('__add__', '__sub__', '__mul__', '__truediv__', '__lt__', '__gt__', '__le__', '__ge__', '__eq__', '__ne__'):
  _promote(_n)
Iv.__radd__ = Iv.__add__
Iv.__rmul__ = Iv.__mul__


def lift(x):
  if isinstance(x, Iv):
    return x
  if isinstance(x, Bo):
    return Iv(0.0, 1.0)
  if isinstance(x, (bool, int, float)):
    x = float(x)
    o = Iv.__new__(Iv)
    o.v = EMPTY if x != x else (x, x, False)
    o.t = None
    return o
  if hasattr(x, 'item'):
    return lift(x.item())
  raise Unsupported(f'cannot lift {type(x).__name__} into the interval domain')


class Bo(elem.Elem):
  """Undetermined boolean."""

  def where(self, a, b):
    return select(None, a, b)

  def truth(self):
    return self

  def __invert__(self):
    return self

  def __and__(self, o):
    if isinstance(o, bool):
      return self if o else False
    return self

  __rand__ = __and__

  def __or__(self, o):
    if isinstance(o, bool):
      return True if o else self
    return self

  __ror__ = __or__

  def __xor__(self, o):
    return self

  __rxor__ = __xor__

  def __eq__(self, o):
    return self

  def __ne__(self, o):
    return self

  __hash__ = None

  def __bool__(self):
    raise Unsupported('truth of an undetermined condition')

  def __add__(self, o):
    return lift(self) + o

  __radd__ = __add__

  def __mul__(self, o):
    return lift(self) * o

  __rmul__ = __mul__

  def __sub__(self, o):
    return lift(self) - o

  def __rsub__(self, o):
    return lift(o) - lift(self)

  def __neg__(self):
    return -lift(self)

  def __truediv__(self, o):
    return lift(self) / o

  def __rtruediv__(self, o):
    return lift(o) / lift(self)

  def __lt__(self, o):
    return lift(self) < o

  def __gt__(self, o):
    return lift(self) > o

  def __le__(self, o):
    return lift(self) <= o

  def __ge__(self, o):
    return lift(self) >= o

  def __pow__(self, n):
    return lift(self) ** n

  @classmethod
  def apply(cls, name, args):
    return Iv.apply(name, tuple(lift(a) if isinstance(a, Bo) else a for a in args))


MAYBE = Bo()


def _bnot(c):
  return (not c) if isinstance(c, bool) else c


def _lt(a, b):
  if a[0] > a[1] or b[0] > b[1]:
    return False
  if a[1] < b[0] and not (a[2] or b[2]):
    return True
  if a[0] >= b[1]:
    return False
  return MAYBE


def _le(a, b):
  if a[0] > a[1] or b[0] > b[1]:
    return False
  if a[1] <= b[0] and not (a[2] or b[2]):
    return True
  if a[0] > b[1]:
    return False
  return MAYBE


def _eq(a, b):
  if a[0] > a[1] or b[0] > b[1]:
    return False
  if a[0] == a[1] == b[0] == b[1] and not (a[2] or b[2]):
    return True
  if a[1] < b[0] or b[1] < a[0]:
    return False
  return MAYBE


def _hazard(t):
  """Contribution of the unselected branch's derivative: 0 * t."""
  if t is None:
    return None
  if t_bad_must(t):
    return EMPTY
  if t_bad_may(t):
    return (0.0, 0.0, True)
  return ZERO


def select(c, a, b):
  """where(c, a, b) with c True, False or undetermined (None)."""
  if _foreign(a) or _foreign(b):
    from . import second
    return second.select(c, a, b)
  if c is True or c is False:
    x, y = (a, b) if c else (b, a)
    lx = x if isinstance(x, Iv) else None
    ty = y.t if isinstance(y, Iv) else None
    if ty is None:
      return x
    h = _hazard(ty)
    x = lift(x)
    return Iv.of(x.v, d_add(x.t, h))
  if not isinstance(a, elem.Elem) and not isinstance(b, elem.Elem) and isinstance(a, bool) and isinstance(b, bool):
    return a if a == b else MAYBE
  if isinstance(a, (Bo, bool)) and isinstance(b, (Bo, bool)):
    return MAYBE
  a, b = lift(a), lift(b)
  v = t_join(a.v, b.v)
  t = None
  if a.t is not None or b.t is not None:
    ta, tb = a.t or ZERO, b.t or ZERO
    # either branch may be the selected one
    t1 = t_add(ta, _hazard(b.t) or ZERO)
    t2 = t_add(tb, _hazard(a.t) or ZERO)
    t = t_join(t1, t2)
  o = Iv.of(v, t)
  return o


def _where_dispatch(c, a, b):
  return select(c, a, b)


# -------------------------------------------------- function table with jvps
def _f_exp(x):
  v = _mono(_exp, x.v)
  return Iv.of(v, d_mul(x.t, v))


def _f_expm1(x):
  v = _mono(_expm1, x.v)
  return Iv.of(v, d_mul(x.t, _mono(_exp, x.v)))


def _f_exp2(x):
  return _f_exp(x * math.log(2))


def _f_log(x):
  v = x.v
  if v[0] > v[1]:
    return Iv.of(EMPTY, x.t)
  if v[1] < 0:
    r = EMPTY
  else:
    r = _norm(_log(max(v[0], 0.0)), _log(v[1]), v[2] or v[0] < 0, 2)
  return Iv.of(r, None if x.t is None else t_div(x.t, v))


def _f_log1p(x):
  v = x.v
  if v[0] > v[1]:
    return Iv.of(EMPTY, x.t)
  if v[1] < -1:
    r = EMPTY
  else:
    r = _norm(_log1p(max(v[0], -1.0)), _log1p(v[1]), v[2] or v[0] < -1, 2)
  return Iv.of(r, None if x.t is None else t_div(x.t, _norm(*t_add(v, ONE))))


def _f_sqrt(x):
  v = x.v
  if v[0] > v[1] or v[1] < 0:
    return Iv.of(EMPTY, None if x.t is None else EMPTY)
  r = _norm(math.sqrt(max(v[0], 0.0)), math.sqrt(v[1]) if v[1] != INF else INF, v[2] or v[0] < 0, 2)
  t = None
  if x.t is not None:
    t = t_mul(t_div(x.t, r), (0.5, 0.5, False))
  return Iv.of(r, t)


def _f_rsqrt(x):
  return 1.0 / _f_sqrt(x)


def _f_abs(x):
  v = x.v
  if v[0] > v[1]:
    return Iv.of(EMPTY, x.t)
  if v[0] >= 0:
    r = v
  elif v[1] <= 0:
    r = t_neg(v)
  else:
    r = (0.0, max(-v[0], v[1]), v[2])
  return Iv.of(r, d_mul(x.t, _sgn(v)))


def _sgn(v):
  lo = -1.0 if v[0] < 0 else (0.0 if v[0] == 0 else 1.0)
  hi = 1.0 if v[1] > 0 else (0.0 if v[1] == 0 else -1.0)
  return (lo, hi, v[2])


def _f_sign(x):
  if x.v[0] > x.v[1]:
    return Iv.of(EMPTY)
  r = _sgn(x.v)
  # derivative of sign is a literal zero of the tangent's shape
  return Iv.of(r, None if x.t is None else _hazard(x.t) and ZERO)


def _f_max(a, b):
  return _ext(a, b, 1)


def _f_min(a, b):
  return _ext(a, b, -1)


def _ext(a, b, s):
  a, b = lift(a), lift(b)
  if a.v[0] > a.v[1] or b.v[0] > b.v[1]:
    return Iv.of(EMPTY, EMPTY if (a.t is not None or b.t is not None) else None)
  if s > 0:
    v = (max(a.v[0], b.v[0]), max(a.v[1], b.v[1]), a.v[2] or b.v[2])
    gt, lt_ = _lt(b.v, a.v), _lt(a.v, b.v)
  else:
    v = (min(a.v[0], b.v[0]), min(a.v[1], b.v[1]), a.v[2] or b.v[2])
    gt, lt_ = _lt(a.v, b.v), _lt(b.v, a.v)
  if gt is True:
    wa, wb = ONE, ZERO
  elif lt_ is True:
    wa, wb = ZERO, ONE
  elif _eq(a.v, b.v) is True:
    wa = wb = (0.5, 0.5, False)
  else:
    wa = wb = (0.0, 1.0, False)
  return Iv.of(v, d_add(d_mul(a.t, wa), d_mul(b.t, wb)))


def _f_cos(x):
  return Iv.of(_cos(x.v), d_neg(d_mul(x.t, _sin(x.v))), 2)


def _f_sin(x):
  return Iv.of(_sin(x.v), d_mul(x.t, _cos(x.v)), 2)


def _f_tanh(x):
  if x.v[0] > x.v[1]:
    return Iv.of(EMPTY, x.t)
  r = _mono(_tanh, x.v)
  r = (max(r[0], -1.0), min(r[1], 1.0), r[2])
  d = t_add(ONE, t_neg(_sq(r)))
  d = (max(d[0], 0.0), d[1], d[2])
  return Iv.of(r, d_mul(x.t, d))


def _f_expit(x):
  if x.v[0] > x.v[1]:
    return Iv.of(EMPTY, x.t)
  r = _mono(_expit, x.v)
  r = (max(r[0], 0.0), min(r[1], 1.0), r[2])
  return Iv.of(r, d_mul(x.t, t_mul(r, t_add(ONE, t_neg(r)))))


def _f_softplus(x):
  if x.v[0] > x.v[1]:
    return Iv.of(EMPTY, x.t)
  r = _mono(_softplus, x.v)
  return Iv.of(r, d_mul(x.t, _mono(_expit, x.v)))


def _f_logaddexp(a, b):
  a, b = lift(a), lift(b)
  if a.v[0] > a.v[1] or b.v[0] > b.v[1]:
    return Iv.of(EMPTY)
  def f(x, y):
    if x == -INF and y == -INF:
      return -INF
    m = max(x, y)
    if m == INF:
      return INF
    return m + math.log1p(math.exp(-abs(x - y))) if abs(x - y) != INF else m
  v = (f(a.v[0], b.v[0]), f(a.v[1], b.v[1]), a.v[2] or b.v[2])
  ra = _mono(_expit, t_add(a.v, t_neg(b.v)))
  rb = _mono(_expit, t_add(b.v, t_neg(a.v)))
  return Iv.of(v, d_add(d_mul(a.t, ra), d_mul(b.t, rb)), 2)


def _f_erf(x):
  if x.v[0] > x.v[1]:
    return Iv.of(EMPTY, x.t)
  r = _mono(math.erf, x.v)
  r = (max(r[0], -1.0), min(r[1], 1.0), r[2])
  d = t_mul((2 / math.sqrt(math.pi),) * 2 + (False,), _mono(_exp, t_neg(_sq(x.v))))
  return Iv.of(r, d_mul(x.t, d))


def _f_arccos(x):
  v = x.v
  if v[0] > v[1] or v[0] > 1 or v[1] < -1:
    return Iv.of(EMPTY, None if x.t is None else EMPTY)
  r = (math.acos(min(1.0, v[1])), math.acos(max(-1.0, v[0])), v[2] or v[0] < -1 or v[1] > 1)
  t = None
  if x.t is not None:
    s = t_add(ONE, t_neg(_sq((max(v[0], -1.0), min(v[1], 1.0), False))))
    s = (max(0.0, s[0]), max(0.0, s[1]), v[0] < -1 or v[1] > 1)
    q = (math.sqrt(s[0]), math.sqrt(s[1]), s[2])
    t = d_neg(t_div(x.t, q))
  return Iv.of(r, t, 3)


def _f_arcsin(x):
  y = _f_arccos(x)
  return math.pi / 2 - y


def _f_arctan(x):
  if x.v[0] > x.v[1]:
    return Iv.of(EMPTY, x.t)
  return Iv.of(_mono(math.atan, x.v), None if x.t is None else t_div(x.t, t_add(ONE, _sq(x.v))))


def _sincv(x):
  if x == 0:
    return 1.0
  if abs(x) == INF:
    return 0.0
  return math.sin(math.pi * x) / (math.pi * x)


def _f_sinc(x):
  lo, hi, nan = x.v
  if lo > hi:
    return Iv.of(EMPTY, x.t)
  if lo == hi and abs(lo) != INF:
    v = _sincv(lo)
    r = (v, v, nan)
  elif -1 <= lo and hi <= 1:
    vals = [_sincv(lo), _sincv(hi)]
    r = (min(vals), 1.0 if lo <= 0 <= hi else max(vals), nan)
  else:
    # Lipschitz enclosure around the midpoint, |sinc'| <= 1.371
    if abs(lo) == INF or abs(hi) == INF:
      r = (-0.22, 1.0, nan)
    else:
      m = 0.5 * (lo + hi)
      c = _sincv(m)
      e = 1.371 * 0.5 * (hi - lo)
      r = (max(-0.2173, c - e), min(1.0, c + e), nan)
  e = 1e-6
  r = (r[0] if r[0] == r[1] == 1.0 else max(r[0] - e, -0.22), min(1.0, r[1] + e), r[2])
  if lo == hi == 0:
    d = ZERO
  else:
    d = (-1.371, 1.371, False)
    if lo == hi and abs(lo) != INF:
      y = math.pi * lo
      dv = math.pi * (math.cos(y) / y - math.sin(y) / (y * y)) if abs(y) > 1e-4 else -math.pi * y / 3
      d = (dv - 1e-3, dv + 1e-3, False)
  return Iv.of(r, d_mul(x.t, d), 2)


def _f_hard_sigmoid(x):
  # relu6(x + 3) / 6
  y = x + 3.0
  v = y.v
  if v[0] > v[1]:
    return Iv.of(EMPTY, x.t)
  r = (min(max(v[0], 0.0), 6.0), min(max(v[1], 0.0), 6.0), v[2])
  if v[0] > 0 and v[1] < 6:
    d = ONE
  elif v[1] < 0 or v[0] > 6:
    d = ZERO
  elif v[0] == v[1]:
    d = ZERO
  else:
    d = (0.0, 1.0, False)
  return Iv.of(r, d_mul(x.t, d)) / 6.0


def _f_floor(x):
  if x.v[0] > x.v[1]:
    return Iv.of(EMPTY)
  return Iv.of((math.floor(x.v[0]) if abs(x.v[0]) != INF else x.v[0], math.floor(x.v[1]) if abs(x.v[1]) != INF else x.v[1], x.v[2]))


def _f_round(x):
  if x.v[0] > x.v[1]:
    return Iv.of(EMPTY)
  r = lambda y: float(round(y)) if abs(y) != INF else y
  return Iv.of((r(x.v[0]), r(x.v[1]), x.v[2]))


def _f_pow(a, b):
  if not isinstance(b, Iv) and not isinstance(b, Bo):
    if isinstance(b, (int, bool)) or (isinstance(b, float) and b == int(b)):
      return lift(a) ** int(b)
    a = lift(a)
    return _f_exp(_f_log(a) * float(b)) if a.v[0] > 0 else _pow_nonneg(a, float(b))
  b = lift(b)
  if not isinstance(a, Iv):
    a = float(a)
    if a > 0:
      return _f_exp(b * math.log(a))
  raise Unsupported('general power in the interval domain')


def _pow_nonneg(a, b):
  v = a.v
  if v[1] < 0 or v[0] > v[1]:
    return Iv.of(EMPTY, None if a.t is None else EMPTY)
  lo = max(v[0], 0.0)
  if b > 0:
    r = (lo ** b, v[1] ** b if v[1] != INF else INF, v[2] or v[0] < 0)
    if a.t is None:
      return Iv.of(r, None, 2)
    if b > 1:
      d = (b * lo ** (b - 1), b * v[1] ** (b - 1) if v[1] != INF else INF, v[0] < 0)
    else:
      d = (b * v[1] ** (b - 1) if v[1] not in (INF, 0) else (0.0 if v[1] == INF else INF), INF if lo == 0 else b * lo ** (b - 1), v[0] < 0)
    return Iv.of(r, d_mul(a.t, d), 2)
  return 1.0 / _pow_nonneg(a, -b)


def _tri(pred):
  def f(x):
    x = lift(x)
    return pred(x.v)
  return f


def _isnan(v):
  if v[0] > v[1]:
    return True
  return MAYBE if v[2] else False


def _isinf(v):
  if v[0] > v[1]:
    return False
  if v[0] == v[1] and abs(v[0]) == INF:
    return True if not v[2] else MAYBE
  return MAYBE if (v[0] == -INF or v[1] == INF) else False


def _isfinite(v):
  if t_bad_must(v):
    return False
  return MAYBE if t_bad_may(v) else True


def _f_select(c, a, b):
  c = lift(c).truth() if isinstance(c, Iv) else c
  return select(c if isinstance(c, bool) else None, a, b)


def _lift1(f):
  return lambda x: f(lift(x))


_FN = {
    'exp': _lift1(_f_exp), 'expm1': _lift1(_f_expm1), 'exp2': _lift1(_f_exp2), 'log': _lift1(_f_log), 'log1p': _lift1(_f_log1p),
    'sqrt': _lift1(_f_sqrt), 'rsqrt': _lift1(_f_rsqrt), 'abs': _lift1(_f_abs), 'sign': _lift1(_f_sign),
    'max': lambda *a: _fold(_f_max, a), 'min': lambda *a: _fold(_f_min, a), 'cos': _lift1(_f_cos), 'sin': _lift1(_f_sin),
    'tan': lambda x: _f_sin(lift(x)) / _f_cos(lift(x)), 'tanh': _lift1(_f_tanh), 'expit': _lift1(_f_expit),
    'softplus': _lift1(_f_softplus), 'logaddexp': _f_logaddexp, 'erf': _lift1(_f_erf),
    'erfc': lambda x: 1.0 - _f_erf(lift(x)), 'arccos': _lift1(_f_arccos), 'arcsin': _lift1(_f_arcsin), 'arctan': _lift1(_f_arctan),
    'sinc': _lift1(_f_sinc), 'hard_sigmoid': _lift1(_f_hard_sigmoid), 'floor': _lift1(_f_floor),
    'ceil': lambda x: -_f_floor(-lift(x)), 'round': _lift1(_f_round), 'pow': _f_pow, 'inv': lambda x: 1.0 / lift(x),
    'isnan': _tri(_isnan), 'isinf': _tri(_isinf), 'isfinite': _tri(_isfinite), 'select': _f_select,
    'log2': lambda x: _f_log(lift(x)) / math.log(2), 'log10': lambda x: _f_log(lift(x)) / math.log(10),
    'cosh': lambda x: (_f_exp(lift(x)) + _f_exp(-lift(x))) / 2.0, 'sinh': lambda x: (_f_exp(lift(x)) - _f_exp(-lift(x))) / 2.0,
    'hypot': lambda a, b: _f_sqrt(lift(a) * lift(a) + lift(b) * lift(b)),
}


def _fold(f, args):
  r = args[0]
  for a in args[1:]:
    r = f(r, a)
  return r


# ------------------------------------------------------- custom derivatives
def _strip(v):
  if isinstance(v, Iv) and v.t is not None:
    o = Iv.__new__(Iv)
    o.v, o.t = v.v, None
    return o
  if _foreign(v):
    from . import second
    return second.strip(v)
  return v


def stop_gradient(x):
  if isinstance(x, A.Arr):
    return x._w(A.apply(_strip, x.a))
  return _strip(x)


def _tan(v):
  """Tangent element: a linear quantity whose own derivative is the tangent."""
  o = Iv.__new__(Iv)
  o.v = (1.0, 1.0, False)
  o.t = v.t if isinstance(v, Iv) and v.t is not None else ZERO
  return o


def call_custom_jvp(c, full):
  from . import second
  if second.has(full):
    return second.call_custom_jvp(c, full)
  prim, tang, nond = [], [], []
  any_t = False
  for i, x in enumerate(full):
    if i in c.nondiff:
      nond.append(x)
      continue
    x = A.asarr(x)
    if any(isinstance(v, Iv) and v.t is not None for v in x.a.flat):
      any_t = True
    prim.append(stop_gradient(x))
    tang.append(x._w(A.apply(_tan, x.a)))
  if not any_t:
    return c.fun(*full)
  out, tout = c.rule(*nond, tuple(prim), tuple(tang))
  value = c.fun(*[stop_gradient(x) if isinstance(x, A.Arr) else x for x in full])

  def comb(a, b):
    a = lift(a)
    t = b.t if isinstance(b, Iv) and b.t is not None else ZERO
    # a surely non-finite linear coefficient shows in t; plain NaN/inf constants
    if isinstance(b, (int, float)) and b != b:
      t = EMPTY
    return Iv.of(a.v, t)
  value = A.asarr(value)
  tout = A.asarr(tout)
  if value.shape != tout.shape:
    raise Unsupported(f'custom derivative of {c.__name__}: tangent shape {tout.shape} for output {value.shape}')
  return value._w(A.apply(comb, value.a, tout.a))


def jvp(f, primals, tangents):
  raise Unsupported('jax.jvp in the interval domain')


# --------------------------------------------------------------- inputs
def var(lo, hi):
  """The input variable on the cell [lo, hi]."""
  o = Iv(lo, hi)
  o.t = ONE
  return o


def arr(v, shape=(1,), dtype=A.F32):
  return A.Arr(A._full(shape, v), dtype, False, True)
