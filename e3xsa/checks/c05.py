"""C05: range, support and monotonicity of cutoffs, switches, windows, damping, mappings and radial functions.

Single-precision interval enclosures on a partition of the axis with the boundary
points and their floating-point neighbours isolated.  Rules: 'range' (no cell lies
entirely outside the bound by more than 1e-5), 'support' (outside the interval the
enclosure contains exactly the constant), 'start' (value at zero), 'monotone' (no
cell whose values are all beyond those of an earlier cell, no cell on which the
derivative has strictly the wrong sign).
"""

import math

from .. import funcs
from .. import ival
from ..run import Obligation as Ob

TOL = 1e-5


def bounds(fn):
  k = fn.kind
  if k == 'abs1':
    return -1.0, 1.0
  return 0.0, 1.0


def function(fn, h):
  s = funcs.session()
  ev = fn.bind(s)
  lo_b, hi_b = bounds(fn)
  cells = funcs.partition(*fn.dom, fn.specials, max(1, (fn.dom[1] - fn.dom[0]) / h))
  n = 0
  kind = fn.kind
  best = None          # running extreme for monotonicity
  for lo, hi in cells:
    vals = ev(lo, hi)
    where = f'at x = {lo:.9g}' if lo == hi else f'for every x in [{lo:.6g}, {hi:.6g}]'
    for i, v in enumerate(vals):
      a, b, nan = v.v
      n += 1
      if a > b:
        return [f'{fn.label}: output {i} is NaN {where}']
      if a > hi_b + TOL or b < lo_b - TOL:
        return [f'{fn.label}: output {i} lies in [{a:.6g}, {b:.6g}] {where}, outside [{lo_b:g}, {hi_b:g}]']
    a, b, nan = vals[0].v
    t = vals[0].t
    if kind in ('cutoff', 'switch', 'mapping', 'damping'):
      if len(vals) != 1:
        return [f'{fn.label}: more than one value per input']
      up = kind in ('switch', 'damping')
      if best is not None and (b < best - TOL if up else a > best + TOL):
        return [f'{fn.label}: not monotone: [{a:.6g}, {b:.6g}] {where}, but an earlier value is {best:.6g}']
      best = a if best is None else (max(best, a) if up else min(best, b))
      if t is not None and t[0] <= t[1]:
        if (t[1] < -1e-3 if up else t[0] > 1e-3):
          return [f'{fn.label}: derivative in [{t[0]:.5g}, {t[1]:.5g}] {where} has the wrong sign']
    if kind == 'cutoff':
      c = fn.kw.get('cutoff', 1.0)
      if lo >= c and (a > 0 or b < 0):
        return [f'{fn.label}: value in [{a:.6g}, {b:.6g}] {where}, must be exactly 0 from the cutoff on']
    if kind == 'switch':
      x0, x1 = fn.kw.get('x0', 0.0), fn.kw.get('x1', 1.0)
      if hi <= x0 and (a > 0 or b < 0):
        return [f'{fn.label}: value in [{a:.6g}, {b:.6g}] {where}, must be exactly 0 up to x0']
      if lo >= x1 and (a > 1 or b < 1):
        return [f'{fn.label}: value in [{a:.6g}, {b:.6g}] {where}, must be exactly 1 from x1 on']
    if lo == hi == 0.0:
      one = dict(cutoff=1.0, mapping=1.0, damping=0.0).get(kind)
      if one is not None and (a > one + TOL or b < one - TOL):
        return [f'{fn.label}: value at zero lies in [{a:.6g}, {b:.6g}] instead of {one:g}']
      if kind == 'damping' and (a > 0 or b < 0):
        return [f'{fn.label}: value at zero is not exactly 0']
    if fn.name in ('sinc', 'triangular_window', 'smooth_window', 'rectangular_window'):
      l = fn.kw.get('limit', 1.0)
      num = fn.kw['num']
      top = l * (1 + 1e-6)
      if lo > top:
        for i, v in enumerate(vals):
          if v.v[0] > 1e-6 or v.v[1] < -1e-6:
            return [f'{fn.label}: output {i} lies in [{v.v[0]:.6g}, {v.v[1]:.6g}] {where}, must vanish beyond the limit']
  return dict(problems=[], facts=n)


def obligations(tier):
  th = tier == 'thorough'
  h = 0.01 if th else 0.05
  return [Ob(fn.label, function, (fn, h), 'range', cost=5) for fn in funcs.registry(th, (1, 2, 3, 5) if th else (1, 2, 4))]
