"""C32: second derivatives are finite, and belong to the function.

Interval abstract interpretation with a forward-mode tangent on top of the
reverse-mode derivative (`second.Du`), with NaN/inf tracking of values, tangents and
their derivatives: derivative rules registered in the source are interpreted in
place of the functions they belong to, and are differentiated themselves, operation
by operation.  Rule 'finite': on no cell of a partition of the input axis (singular
points isolated) is the tangent, the derivative of the value that the registered
rule returns, or the derivative of the tangent NaN or infinite throughout.  Rule
'curvature': where the second derivative of the independent closed form exists, it
lies within the enclosure.
"""

import numpy as np

from .. import arr as A
from .. import curves
from .. import funcs
from .. import ival
from .. import second
from ..run import Obligation as Ob
from . import c06
from . import c24

TOL = 1e-2


def bad(v):
  """What is certainly NaN or infinite about an element."""
  if ival.t_bad_must(v.p.v):
    return 'the value'
  if v.p.t is not None and ival.t_bad_must(v.p.t):
    return 'the derivative of the value returned by the derivative rule'
  if v.d is not None:
    if ival.t_bad_must(v.d.v):
      return 'the first derivative'
    if v.d.t is not None and ival.t_bad_must(v.d.t):
      return 'the second derivative'
  return None


def scan(what, ev, cells, ref=None, lo_dom=-1e9):
  n = 0
  for lo, hi in cells:
    x = lo if lo == hi else 0.5 * (lo + hi)
    vals = ev(lo, hi)
    for i, v in enumerate(vals):
      b = bad(v)
      if b:
        cell = f'at x = {lo:.9g}' if lo == hi else f'for every x in [{lo:.9g}, {hi:.9g}]'
        return [f'{what}: {b} of output {i} is NaN or infinite {cell}']
      n += 1
    if ref is None:
      continue
    for i, (v, r) in enumerate(zip(vals, curves.second(ref, x, lo_dom))):
      if r is None or v.d is None or v.d.t is None:
        continue
      a, b, nan = v.d.t
      t = TOL * max(1.0, abs(r))
      if r < a - t or r > b + t:
        return [f'{what}: the second derivative of output {i} lies in [{a:.7g}, {b:.7g}] at x = {x:.9g}, the second derivative of '
                f'the function is {r:.7g}']
      n += 1
  return dict(problems=[], facts=n)


def _elems(r):
  out = []
  for y in (r if isinstance(r, tuple) else (r,)):
    out += [second.lift(v) for v in A.asarr(y).a.flat]
  return out


def function(fn, h):
  s = funcs.session()
  f = s.get('e3x.nn.' + fn.name)

  def ev(lo, hi):
    return _elems(f(ival.arr(second.var(lo, hi), ()), **fn.kw))
  return scan(fn.label, ev, c24.cells_of(fn, h=h), curves.ref(fn.name, fn.kw), -1e9 if fn.name == 'triangular_window' else fn.dom[0])


def activation(name, kw, h):
  s = funcs.session()
  f = s.get('e3x.nn.' + name)

  def ev(lo, hi):
    a = A._full((1, 4, 1), ival.Iv(0.5, 0.5))
    a[0, 0, 0] = second.var(lo, hi)
    return _elems(f(A.Arr(a, A.F32, False, True), **kw))[:1]
  g = curves.activation(name, kw)
  fn = funcs.Fn(name, kw, (-1e4, 1e4), c06.act_specials(), 'act')
  return scan(f'{name}({kw})', ev, c24.cells_of(fn, h=h), lambda x: [g(x)])


def vector_fn(name, d, off, kw, h):
  s = funcs.session()
  f = s.get('e3x.ops.' + name)

  def ev(lo, hi):
    t = second.var(lo, hi)
    a = np.empty((2, 3), dtype=object)
    for k in range(3):
      a[0, k] = t * d[k] + off[k] if d[k] else ival.lift(off[k])
      a[1, k] = ival.lift((0.0, 2.0, 1.0)[k])
    return _elems(f(A.Arr(A._obj(a), A.F32, False, True), **kw))
  # vectors so short or so long that squared reciprocals leave the number range are
  # outside of the statement
  sp = [v for v in c06.vec_specials() if 1e-9 <= abs(v) <= 1e9 or v == 0.0]
  cells = [c for c in funcs.partition(-1e4, 1e4, sp, 2e4 / h) if c == (0.0, 0.0) or max(map(abs, c)) <= 1e9 and min(map(abs, c)) >= 1e-9]
  return scan(f'ops.{name}(t*{d}+{off}, {kw})', ev, cells)


def obligations(tier):
  th = tier == 'thorough'
  h = 0.02 if th else 0.1
  R = 'second derivative'
  obs = [Ob(fn.label, function, (fn, h), R, cost=5) for fn in funcs.registry(th, (1, 2, 3, 5) if th else (1, 2, 4))]
  obs += [Ob(f'{n}({kw})', activation, (n, kw, h), R, cost=4) for n, kw in c06.ACT]
  for d in c06.DIRS:
    for off in ((0.0, 0.0, 0.0), (0.0, 0.0, 1.0)):
      for name, kws in (('norm', [dict(axis=-1), dict(axis=-1, keepdims=True), dict(axis=None), {}, dict(axis=(0, 1), keepdims=True)]),
                        ('normalize', [dict(axis=-1), {}]),
                        ('normalize_and_return_norm', [dict(axis=-1), dict(axis=-1, keepdims=True)])):
        for kw in kws:
          obs.append(Ob(f'ops.{name} {d}+{off} {kw}', vector_fn, (name, d, off, kw, 0.25 if th else 1.0), R, cost=3))
  return obs
