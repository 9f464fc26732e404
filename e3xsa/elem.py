"""Dispatch of scalar operations over the element domains.

Elements are Python numbers (constants), `poly.Poly` (term domain) or any object
with a `fn(name, *args)` class method (interval domain).
"""

import math

import numpy as np

from . import poly
from .errors import Unsupported
from .poly import Poly

INF = math.inf
NAN = math.nan


class Elem:
  """Base class for non-Poly abstract element domains."""

  @classmethod
  def apply(cls, name, args):
    raise NotImplementedError


def is_abs(x):
  return isinstance(x, (Poly, Elem))


def _np1(f):
  def g(x):
    with np.errstate(all='ignore'):
      r = f(np.float64(x))
    return float(r)
  return g


def _sinc(x):
  return 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)


_C1 = {
    'exp': _np1(np.exp), 'expm1': _np1(np.expm1), 'log': _np1(np.log),
    'log1p': _np1(np.log1p), 'log2': _np1(np.log2), 'log10': _np1(np.log10),
    'sqrt': _np1(np.sqrt), 'cbrt': _np1(np.cbrt),
    'sin': _np1(np.sin), 'cos': _np1(np.cos), 'tan': _np1(np.tan),
    'arcsin': _np1(np.arcsin), 'arccos': _np1(np.arccos), 'arctan': _np1(np.arctan),
    'sinh': _np1(np.sinh), 'cosh': _np1(np.cosh), 'tanh': _np1(np.tanh),
    'erf': math.erf, 'erfc': math.erfc, 'exp2': _np1(np.exp2),
    'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)),
    'round': lambda x: float(round(x)), 'sinc': _sinc,
    'lgamma': lambda x: math.lgamma(x), 'rsqrt': lambda x: 1 / math.sqrt(x) if x > 0 else INF,
    'isnan': lambda x: x != x, 'isinf': lambda x: abs(x) == INF,
    'isfinite': lambda x: x == x and abs(x) != INF,
    'inv': lambda x: 1 / x if x else INF,
    'expit': lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
    'softplus': lambda x: max(x, 0.0) + math.log1p(math.exp(-abs(x))),
}


def const_fn(name, args):
  if len(args) == 1 and name in _C1:
    return _C1[name](args[0])
  if name == 'abs':
    return abs(args[0])
  if name == 'sign':
    x = args[0]
    return (x > 0) - (x < 0) if isinstance(x, int) else float((x > 0) - (x < 0))
  if name == 'max':
    return max(args)
  if name == 'min':
    return min(args)
  if name == 'pow':
    a, b = args
    with np.errstate(all='ignore'):
      if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and b >= 0:
        return int(a) ** int(b)
      return float(np.float64(a) ** np.float64(b))
  if name == 'mod':
    a, b = args
    return a % b
  if name == 'floordiv':
    return args[0] // args[1]
  if name == 'arctan2':
    return math.atan2(*args)
  if name == 'hypot':
    return math.hypot(*args)
  if name == 'logaddexp':
    return float(np.logaddexp(*args))
  if name == 'div0':
    a = args[0]
    return NAN if a == 0 or a != a else math.copysign(INF, a)
  if name == 'betaln':
    a, b = args
    return math.lgamma(a) + math.lgamma(b) - math.lgamma(a + b)
  if name in ('argmin', 'argmax'):
    return args.index((min if name == 'argmin' else max)(args))
  if name == 'select':
    return args[1] if args[0] else args[2]
  raise Unsupported(f'constant function {name}')


_NUM = (int, float, bool)


def fn(name, *args):
  dom = None
  for a in args:
    if isinstance(a, Elem):
      dom = type(a)
      break
    if isinstance(a, Poly):
      dom = Poly
  if dom is None:
    return const_fn(name, args)
  if dom is Poly:
    if name == 'max':
      return poly.pmax(*args)
    if name == 'min':
      return poly.pmin(*args)
    if name == 'pow':
      return args[0] ** args[1]
    if name == 'inv':
      return poly.inv(args[0])
    if name == 'rsqrt':
      return poly.inv(poly.fn('sqrt', args[0]))
    if name in ('isnan', 'isinf'):
      return False
    if name == 'isfinite':
      return True
    return poly.fn(name, *args)
  return dom.apply(name, args)


def where(c, a, b):
  if not is_abs(c):
    if isinstance(c, float) and c != c:
      return a
    if isinstance(a, Elem) or isinstance(b, Elem):
      # the unselected operand still receives a (zero) cotangent
      from . import ival
      return ival.select(bool(c), a, b)
    return a if c else b
  if isinstance(c, Elem):
    return c.where(a, b)
  for v in (a, b):
    if isinstance(v, Elem):
      raise Unsupported('mixed domains in where')
  return poly.where(c, a, b)


def add(a, b):
  if not is_abs(a) and not is_abs(b):
    if isinstance(a, bool):
      a = int(a)
    return a + b
  return a + b


def mul(a, b):
  """Multiplication; 0 * abstract is 0 only in the term domain."""
  return a * b


def div(a, b):
  if not is_abs(a) and not is_abs(b):
    if b == 0:
      if a == 0 or a != a:
        return NAN
      return math.copysign(INF, a) * (math.copysign(1, b) if isinstance(b, float) else 1)
    return a / b
  if isinstance(a, Poly) and not is_abs(b) and b == 0:
    return poly.fn('div0', a)
  return a / b


def neg(a):
  if isinstance(a, bool):
    return -int(a)
  return -a


def lnot(a):
  if isinstance(a, (Poly,)):
    return 1 - a
  if isinstance(a, Elem):
    return ~a
  return not a


def land(a, b):
  if not is_abs(a):
    return (b if a else False)
  if not is_abs(b):
    return (a if b else False)
  return a & b


def lor(a, b):
  if not is_abs(a):
    return (True if a else b)
  if not is_abs(b):
    return (True if b else a)
  return a | b


def lt(a, b):
  if is_abs(a) or is_abs(b):
    return a < b
  return bool(a < b)


def le(a, b):
  if is_abs(a) or is_abs(b):
    return a <= b
  return bool(a <= b)


def eq(a, b):
  if is_abs(a) or is_abs(b):
    return a == b
  return bool(a == b)


def ne(a, b):
  if is_abs(a) or is_abs(b):
    return a != b
  return bool(a != b)


def truth(a):
  """Element as a boolean-valued element (x != 0)."""
  if isinstance(a, Poly):
    if all(poly._ATOMS[i].ind for m in a.d for i in m):
      return a
    return 1 - poly.eq(a, 0)
  if isinstance(a, Elem):
    return a.truth()
  return bool(a)
