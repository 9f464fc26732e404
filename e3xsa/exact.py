"""Exact algebra: polynomials over sums of rational multiples of square roots and i.

The domain in which the symbolic table formulas are interpreted; `sympy(ns)` fills a
namespace with models of the few sympy functions whose meaning is arithmetic.
"""

import fractions
import math

import numpy as np

from .errors import ModelError, Unsupported

FR = fractions.Fraction
_SQ = {}


def square_part(n):
  """n = s^2 * f with f squarefree."""
  if n in _SQ:
    return _SQ[n]
  s, f, k, p = 1, 1, n, 2
  while p * p <= k:
    e = 0
    while k % p == 0:
      k //= p
      e += 1
    s *= p ** (e // 2)
    f *= p ** (e % 2)
    p += 1 if p == 2 else 2
    if p > 100000:
      raise Unsupported(f'square root of {n}')
  _SQ[n] = (s, f * k)
  return _SQ[n]


def lift(x):
  if isinstance(x, Ex):
    return x
  if isinstance(x, (bool, np.bool_)):
    return None
  if isinstance(x, (int, np.integer)):
    return Ex({((), 1, 0): FR(int(x))} if x else {})
  if isinstance(x, FR):
    return Ex({((), 1, 0): x} if x else {})
  if isinstance(x, (float, np.floating)):
    return Ex({((), 1, 0): FR(float(x))} if x else {})
  if hasattr(x, 'a') and getattr(x, 'a', None) is not None and getattr(x.a, 'shape', None) == ():
    return lift(x.a.item())
  return None


class Ex:
  """{(monomial, radicand, power of i): rational}; monomial = ((symbol, power), ...)."""
  __slots__ = ('d',)

  def __init__(self, d):
    self.d = d

  # arithmetic
  def __add__(self, o):
    o = lift(o)
    if o is None:
      return NotImplemented
    d = dict(self.d)
    for k, v in o.d.items():
      s = d.get(k, 0) + v
      if s:
        d[k] = s
      else:
        d.pop(k, None)
    return Ex(d)

  __radd__ = __add__

  def __neg__(self):
    return Ex({k: -v for k, v in self.d.items()})

  def __pos__(self):
    return self

  def __sub__(self, o):
    o = lift(o)
    return NotImplemented if o is None else self + (-o)

  def __rsub__(self, o):
    o = lift(o)
    return NotImplemented if o is None else o + (-self)

  def __mul__(self, o):
    o = lift(o)
    if o is None:
      return NotImplemented
    d = {}
    for (m1, n1, i1), v1 in self.d.items():
      for (m2, n2, i2), v2 in o.d.items():
        g = math.gcd(n1, n2)
        v = v1 * v2 * g
        i = i1 + i2
        if i == 2:
          i, v = 0, -v
        if not m1:
          m = m2
        elif not m2:
          m = m1
        else:
          c = dict(m1)
          for s, p in m2:
            c[s] = c.get(s, 0) + p
          m = tuple(sorted((s, p) for s, p in c.items() if p))
        k = (m, (n1 // g) * (n2 // g), i)
        s = d.get(k, 0) + v
        if s:
          d[k] = s
        else:
          d.pop(k, None)
    return Ex(d)

  __rmul__ = __mul__

  def inverse(self):
    if not self.d:
      raise ZeroDivisionError('division by zero')
    if len(self.d) > 1:
      # rationalise a + b * root with constants
      if any(m for m, _, _ in self.d):
        raise Unsupported('division by a sum with symbols')
      for n in {k[1] for k in self.d} - {1}:
        for p in _primes(n):
          c = Ex({k: (-v if k[1] % p == 0 else v) for k, v in self.d.items()})
          return c * (self * c).inverse()
      c = self.conjugate()
      return c * (self * c).inverse()
    (m, n, i), v = next(iter(self.d.items()))
    return Ex({(tuple((s, -p) for s, p in m), n, i): (1 / (v * n)) * (-1 if i else 1)})

  def __truediv__(self, o):
    o = lift(o)
    return NotImplemented if o is None else self * o.inverse()

  def __rtruediv__(self, o):
    o = lift(o)
    return NotImplemented if o is None else o * self.inverse()

  def __pow__(self, n):
    n = lift(n)
    if n is None:
      return NotImplemented
    q = n.rational()
    if q is None:
      raise Unsupported('symbolic exponent')
    if q.denominator == 2 and q > 0:
      return sqrt(self) ** q.numerator
    if q.denominator == 2:
      return (sqrt(self) ** -q.numerator).inverse()
    if q.denominator != 1:
      raise Unsupported(f'power {q}')
    k = q.numerator
    if k < 0:
      return (self ** -k).inverse()
    r, b = lift(1), self
    while k:
      if k & 1:
        r = r * b
      k >>= 1
      if k:
        b = b * b
    return r

  def __rpow__(self, o):
    o = lift(o)
    return NotImplemented if o is None else o ** self

  def __eq__(self, o):
    o = lift(o)
    return NotImplemented if o is None else self.d == o.d

  def __hash__(self):
    return hash(tuple(sorted(self.d.items())))

  def _cmp(self, o, f):
    o = lift(o)
    if o is None:
      return NotImplemented
    return f(complex(self - o).real, 0)

  def __lt__(self, o):
    return self._cmp(o, lambda a, b: a < b)

  def __le__(self, o):
    return self._cmp(o, lambda a, b: a <= b)

  def __gt__(self, o):
    return self._cmp(o, lambda a, b: a > b)

  def __ge__(self, o):
    return self._cmp(o, lambda a, b: a >= b)

  def __bool__(self):
    return bool(self.d)

  def __abs__(self):
    return -self if self < 0 else self

  def __complex__(self):
    t = 0j
    for (m, n, i), v in self.d.items():
      c = 1.0
      for s, p in m:
        if s != 'pi':
          raise TypeError('Cannot convert expression to float')
        c *= math.pi ** p
      t += float(v) * math.sqrt(n) * c * (1j if i else 1)
    return t

  def __float__(self):
    c = complex(self)
    if abs(c.imag) > 0:
      raise TypeError('Cannot convert complex to float')
    return c.real

  def __int__(self):
    return int(float(self))

  __index__ = None

  def __repr__(self):
    t = []
    for (m, n, i), v in sorted(self.d.items())[:8]:
      t.append('*'.join([str(v)] + [f'sqrt({n})'] * (n > 1) + ['i'] * i + [f'{s}**{p}' if p != 1 else s for s, p in m]))
    return ' + '.join(t) or '0'

  # methods of sympy expressions
  def rational(self):
    if not self.d:
      return FR(0)
    if set(self.d) == {((), 1, 0)}:
      return self.d[(), 1, 0]
    return None

  def conjugate(self):
    return Ex({k: (-v if k[2] else v) for k, v in self.d.items()})

  def simplify(self, **k):
    return self

  expand = simplify

  def as_expr(self):
    return self

  def evalf(self, *a):
    return self

  def subs(self, *a):
    if len(a) == 2:
      pairs = [a]
    else:
      pairs = list(a[0].items()) if isinstance(a[0], dict) else list(a[0])
    e = self
    for old, new in pairs:
      s, new = name(old), lift(new)
      pw = {0: lift(1)}
      out = {}
      rest = {}
      for (m, n, i), v in e.d.items():
        p = dict(m).get(s, 0)
        rest.setdefault(p, {})[tuple(t for t in m if t[0] != s), n, i] = v
      out = Ex({})
      for p, d in rest.items():
        out = out + Ex(d) * new ** p
      e = out
    return e

  @property
  def is_zero(self):
    return not self.d


def _primes(n):
  p = 2
  while n > 1:
    if n % p == 0:
      yield p
      while n % p == 0:
        n //= p
    p += 1


def name(e):
  if isinstance(e, Ex) and len(e.d) == 1:
    (m, n, i), v = next(iter(e.d.items()))
    if n == 1 and not i and v == 1 and len(m) == 1 and m[0][1] == 1:
      return m[0][0]
  raise Unsupported(f'{e} used as a symbol')


def sqrt(x):
  q = lift(x).rational()
  if q is None:
    raise Unsupported(f'square root of {x}')
  if q == 0:
    return lift(0)
  s, f = square_part(abs(q.numerator) * q.denominator)
  return Ex({((), f, 1 if q < 0 else 0): FR(s, q.denominator)})


def integer(x, what):
  q = lift(x).rational()
  if q is None or q.denominator != 1:
    raise Unsupported(f'{what} of {x}')
  return q.numerator


def factorial(x):
  n = integer(x, 'factorial')
  if n < 0:
    raise Unsupported('factorial of a negative number')
  return lift(math.factorial(n))


def factorial2(x):
  n = integer(x, 'double factorial')
  if n < -1:
    raise Unsupported(f'double factorial of {n}')
  return lift(math.prod(range(n, 0, -2)) if n > 0 else 1)


def binomial(n, k):
  n, k = integer(n, 'binomial'), integer(k, 'binomial')
  if k < 0:
    return lift(0)
  if n < 0:
    return lift((-1) ** k * math.comb(k - n - 1, k))
  return lift(math.comb(n, k))


PI = Ex({((('pi', 1),), 1, 0): FR(1)})
IM = Ex({((), 1, 1): FR(1)})
_TRIG = {FR(0): (1, 0), FR(1, 6): ((3, 4), (1, 4)), FR(1, 4): ((1, 2), (1, 2)), FR(1, 3): ((1, 4), (3, 4)), FR(1, 2): (0, 1)}


def _angle(x):
  q = (lift(x) / PI).rational()
  if q is None:
    raise Unsupported(f'angle {x}')
  return q % 2


def cos(x):
  q = _angle(x)
  sign = 1
  if q > 1:
    q = 2 - q
  if q > FR(1, 2):
    q, sign = 1 - q, -1
  if q not in _TRIG:
    raise Unsupported(f'cos({q} pi)')
  v = _TRIG[q][0]
  return lift(sign) * (sqrt(FR(*v)) if isinstance(v, tuple) else lift(v))


def sin(x):
  return cos(lift(x) - PI * FR(1, 2))


def symbols(names, **k):
  n = names.replace(',', ' ').split()
  r = tuple(Ex({(((s, 1),), 1, 0): FR(1)}) for s in n)
  return r if len(r) > 1 or ',' in names else r[0]


class Polynomial:

  def __init__(self, e, *gens, **k):
    if k:
      raise Unsupported(f'Poly options {sorted(k)}')
    if isinstance(e, Polynomial):
      e = e.e
    self.e = lift(e)
    if self.e is None:
      raise Unsupported('Poly of an array')
    if not gens:
      gens = [symbols(s) for s in sorted({s for m, _, _ in self.e.d for s, _ in m if s != 'pi'})]
    self.gens = tuple(gens)
    names = [name(g) for g in self.gens]
    self.d = {}
    for (m, n, i), v in self.e.d.items():
      p = dict(m)
      if any(q < 0 for s, q in m if s in names):
        raise Unsupported('negative power in a polynomial')
      key = tuple(p.pop(s, 0) for s in names)
      c = self.d.setdefault(key, {})
      c[tuple(sorted(p.items())), n, i] = v
    self.d = {k: Ex(v) for k, v in self.d.items()}

  def terms(self):
    return sorted(self.d.items(), reverse=True) or [((0,) * len(self.gens), lift(0))]

  def monoms(self):
    return [k for k, _ in self.terms()]

  def coeffs(self):
    return [c for _, c in self.terms()]

  def as_dict(self):
    return dict(self.d)

  def as_expr(self):
    return self.e

  def total_degree(self):
    return max((sum(k) for k in self.d), default=-1)

  def coeff_monomial(self, m):
    k = m if isinstance(m, tuple) else Polynomial(m, *self.gens).terms()[0][0]
    return self.d.get(k, lift(0))

  def subs(self, *a):
    return self.e.subs(*a)

  def _op(self, o, f):
    o = o.e if isinstance(o, Polynomial) else lift(o)
    return NotImplemented if o is None else Polynomial(f(self.e, o), *self.gens)

  def __add__(self, o):
    return self._op(o, lambda a, b: a + b)

  def __sub__(self, o):
    return self._op(o, lambda a, b: a - b)

  def __mul__(self, o):
    return self._op(o, lambda a, b: a * b)

  __radd__, __rmul__ = __add__, __mul__

  def __neg__(self):
    return Polynomial(-self.e, *self.gens)

  @property
  def is_zero(self):
    return not self.d


class Matrix:
  """Model of a sympy matrix of numbers (linear algebra in floating point)."""
  __exact_matrix__ = True

  def __init__(self, v):
    self.v = v if isinstance(v, np.ndarray) else np.array(v, dtype=object)

  @classmethod
  def zeros(cls, r, c=None):
    v = np.empty((int(r), int(r if c is None else c)), dtype=object)
    v[...] = lift(0)
    return cls(v)

  @classmethod
  def eye(cls, n):
    m = cls.zeros(n)
    for i in range(int(n)):
      m.v[i, i] = lift(1)
    return m

  def num(self):
    return np.array([[float(x) for x in r] for r in self.v]).reshape(self.v.shape)

  @property
  def shape(self):
    return self.v.shape

  @property
  def T(self):
    return Matrix(self.v.T.copy())

  def transpose(self):
    return self.T

  def __getitem__(self, i):
    if not isinstance(i, tuple):
      return self.v.reshape(-1)[int(i)]
    i = tuple(x if isinstance(x, slice) else int(x) for x in i)
    r = self.v[tuple(slice(x, x + 1) if isinstance(x, int) and any(isinstance(y, slice) for y in i) else x for x in i)]
    return Matrix(r.copy()) if isinstance(r, np.ndarray) else r

  def __setitem__(self, i, x):
    if not isinstance(i, tuple):
      self.v.reshape(-1)[int(i)] = x
      return
    i = tuple(x if isinstance(x, slice) else int(x) for x in i)
    if isinstance(x, Matrix):
      self.v[tuple(slice(k, k + 1) if isinstance(k, int) else k for k in i)] = x.v
    else:
      self.v[i] = x

  def __mul__(self, o):
    if isinstance(o, Matrix):
      return Matrix((self.num() @ o.num()).astype(object))
    return Matrix(np.array([[x * o for x in r] for r in self.v], dtype=object).reshape(self.v.shape))

  __matmul__ = __mul__

  def __rmul__(self, o):
    return self * o

  def __add__(self, o):
    return Matrix((self.num() + o.num()).astype(object))

  def inv(self, *a, **k):
    return Matrix(np.linalg.inv(self.num()).astype(object))

  def __pow__(self, n):
    if int(n) < 0:
      return Matrix(np.linalg.matrix_power(np.linalg.inv(self.num()), -int(n)).astype(object))
    return Matrix(np.linalg.matrix_power(self.num(), int(n)).astype(object))

  def LUsolve(self, b):
    x, *_ = np.linalg.lstsq(self.num(), b.num(), rcond=None)
    if np.abs(self.num() @ x - b.num()).max() > 1e-8 * max(1.0, np.abs(b.num()).max()):
      raise ModelError('a linear system to be solved exactly is inconsistent')
    return Matrix(x.astype(object))

  solve = LUsolve

  def pinv(self):
    return Matrix(np.linalg.pinv(self.num()).astype(object))

  def tolist(self):
    return [list(r) for r in self.v]


def cg(j1, j2, j3, m1, m2, m3):
  """Exact complex Clebsch-Gordan coefficient <j1 m1 j2 m2 | j3 m3> (integer arguments)."""
  j1, j2, j3, m1, m2, m3 = (integer(v, 'coupling coefficient') for v in (j1, j2, j3, m1, m2, m3))
  if m1 + m2 != m3 or not abs(j1 - j2) <= j3 <= j1 + j2 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
    return lift(0)
  f = math.factorial
  pre = FR((2 * j3 + 1) * f(j3 + j1 - j2) * f(j3 - j1 + j2) * f(j1 + j2 - j3), f(j1 + j2 + j3 + 1))
  pre *= f(j3 + m3) * f(j3 - m3) * f(j1 - m1) * f(j1 + m1) * f(j2 - m2) * f(j2 + m2)
  s = FR(0)
  for k in range(j1 + j2 - j3 + 1):
    t = (k, j1 + j2 - j3 - k, j1 - m1 - k, j2 + m2 - k, j3 - j2 + m1 + k, j3 - j1 - m2 + k)
    if min(t) >= 0:
      s += FR((-1) ** k, math.prod(map(f, t)))
  return sqrt(pre) * s


def wigner_3j(j1, j2, j3, m1, m2, m3):
  a = cg(j1, j2, j3, m1, m2, -m3 if not isinstance(m3, Ex) else -m3)
  n = integer(j1, '3j') - integer(j2, '3j') - integer(m3, '3j')
  return a * (-1) ** (n % 2) / sqrt(2 * integer(j3, '3j') + 1)


def rational(p, q=1):
  return lift(p) / lift(q)


def ident(e, *a, **k):
  return e


def sympify(x):
  r = lift(x)
  if r is None:
    raise Unsupported(f'symbolic constant of {type(x).__name__}')
  return r


class _S:
  """sympy.S: callable, with the named constants."""
  Zero, One, NegativeOne, Half, Pi, ImaginaryUnit = lift(0), lift(1), lift(-1), lift(FR(1, 2)), PI, IM

  def __call__(self, x):
    return sympify(x)


MODEL = dict(
    S=_S(), sympify=sympify, Integer=sympify, Rational=rational, sqrt=sqrt, factorial=factorial, factorial2=factorial2, binomial=binomial, cos=cos, sin=sin,
    pi=PI, I=IM, symbols=symbols, simplify=ident, expand=ident, nsimplify=ident, together=ident, radsimp=ident, cancel=ident, Poly=Polynomial,
    zeros=Matrix.zeros, eye=Matrix.eye, Matrix=Matrix, Symbol=symbols,
    conjugate=lambda e: lift(e).conjugate(), Abs=lambda e: abs(lift(e)), re=lambda e: (lift(e) + lift(e).conjugate()) / 2,
)
WIGNER = dict(clebsch_gordan=cg, wigner_3j=wigner_3j)
