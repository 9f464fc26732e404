"""C25: derivatives, including hand-written derivative rules, belong to the value computed.

The derivative that automatic differentiation of the program text yields (with the
custom rules registered in the source in place of the differentiated body) is
enclosed by interval arithmetic on a partition of the input axis.  Rule
'derivative': the derivative of the independent closed form, computed in double
precision, lies within that enclosure (relative tolerance 2e-3 plus 2e-3), and for
norms the derivative equals the unit direction, zero at the zero vector.  At a kink
any value between the one-sided derivatives is accepted.
"""

import math

import numpy as np

from .. import arr as A
from .. import curves
from .. import funcs
from .. import ival
from ..run import Obligation as Ob
from . import c06
from . import c24

TOL = 2e-3


def compare(what, vals, ders, x):
  for i, (v, r) in enumerate(zip(vals, ders)):
    if r is None or v.t is None:
      continue
    lo, hi, nan = v.t
    t = TOL * max(1.0, abs(r[0]), abs(r[1]))
    if lo > hi:
      return f'{what}: the derivative of output {i} is NaN at x = {x:.9g} instead of {r[0]:.6g}'
    if r[1] < lo - t or r[0] > hi + t:
      rs = f'{r[0]:.7g}' if r[1] - r[0] < t else f'between {r[0]:.7g} and {r[1]:.7g}'
      return (f'{what}: the derivative of output {i} lies in [{lo:.7g}, {hi:.7g}] at x = {x:.9g}, '
              f'the derivative of the function is {rs}')
  return None


def scalar(label, ev, ref, cells, lo_dom):
  n = 0
  for lo, hi in cells:
    x = lo if lo == hi else 0.5 * (lo + hi)
    vals = ev(lo, hi)
    d = curves.derivative(ref, x, lo_dom)
    m = compare(label, vals, d, x)
    if m:
      return [m]
    n += sum(r is not None for r in d)
  return dict(problems=[], facts=n)


def function(fn, h):
  s = funcs.session()
  return scalar(fn.label, fn.bind(s), curves.ref(fn.name, fn.kw), c24.cells_of(fn, h=h),
                -1e9 if fn.name == 'triangular_window' else fn.dom[0])


def activation(name, kw, h):
  s = funcs.session()
  f = s.get('e3x.nn.' + name)

  def ev(lo, hi):
    a = A._full((1, 4, 1), ival.Iv(0.5, 0.5))
    a[0, 0, 0] = ival.var(lo, hi)
    return [ival.lift(f(A.Arr(a, A.F32, False, True), **kw).a[0, 0, 0])]
  g = curves.activation(name, kw)
  fn = funcs.Fn(name, kw, (-1e4, 1e4), c06.act_specials(), 'act')
  return scalar(f'{name}({kw})', ev, lambda x: [g(x)], c24.cells_of(fn, h=h), -1e9)


def norm(fname, d, off, kw, h):
  """Directional derivative of norm/normalize along d at t*d + off."""
  s = funcs.session()
  f = s.get('e3x.ops.' + fname)
  n = 0

  def ev(lo, hi):
    t = ival.var(lo, hi)
    a = np.empty((2, 3), dtype=object)
    for k in range(3):
      a[0, k] = t * d[k] + off[k] if d[k] else ival.lift(off[k])
      a[1, k] = ival.lift((0.0, 2.0, 1.0)[k])
    r = f(A.Arr(A._obj(a), A.F32, False, True), **kw)
    out = []
    for y in (r if isinstance(r, tuple) else (r,)):
      out += [ival.lift(v) for v in A.asarr(y).a.flat]
    return out

  def ref(x):
    a = np.array([[x * d[k] + off[k] for k in range(3)], [0.0, 2.0, 1.0]])
    ax = kw.get('axis')
    kd = kw.get('keepdims', False)
    nr = np.sqrt(np.sum(a * a, axis=ax, keepdims=True))
    sq = nr if kd else (np.squeeze(nr, axis=ax) if ax is not None else np.squeeze(nr))
    if fname == 'norm':
      return list(np.atleast_1d(sq).flat)
    u = np.where(nr > 0, a / np.where(nr > 0, nr, 1), 0)
    if fname == 'normalize':
      return list(u.flat)
    return list(u.flat) + list(np.atleast_1d(sq).flat)
  sp = [v for v in c06.vec_specials() if abs(v) <= 8.0]
  fn = funcs.Fn(fname, kw, (-1e4, 1e4), sp, 'vec')
  label = f'ops.{fname}(t*{d}+{off}, {kw})'
  z = ev(0.0, 0.0) if not any(off) and fname == 'norm' and kw.get('axis') == -1 else None
  if z is not None:
    lo, hi, nan = z[0].t
    if lo > hi or lo > TOL or hi < -TOL:
      return [f'{label}: the derivative at the zero vector lies in [{lo:.5g}, {hi:.5g}] instead of 0']
  return scalar(label, ev, ref, [c for c in c24.cells_of(fn, h=h) if max(abs(c[0]), abs(c[1])) > 1e-3 or any(off)], -1e9)


def obligations(tier):
  th = tier == 'thorough'
  h = 0.02 if th else 0.05
  R = 'derivative'
  obs = [Ob(fn.label, function, (fn, h), R, cost=5) for fn in funcs.registry(th, (1, 2, 3, 5) if th else (1, 2, 4))]
  obs += [Ob(f'{n}({kw})', activation, (n, kw, h), R, cost=4) for n, kw in c06.ACT]
  for d in c06.DIRS:
    for off in ((0.0, 0.0, 0.0), (0.0, 0.0, 1.0), (1.0, 2.0, 0.0)):
      for name, kws in (('norm', [dict(axis=-1), dict(axis=-1, keepdims=True), dict(axis=None), {}, dict(axis=(0, 1), keepdims=True), dict(axis=0)]),
                        ('normalize', [dict(axis=-1), {}]),
                        ('normalize_and_return_norm', [dict(axis=-1), dict(axis=-1, keepdims=True)])):
        for kw in kws:
          obs.append(Ob(f'ops.{name} {d}+{off} {kw}', norm, (name, d, off, kw, h), R, cost=3))
  return obs
