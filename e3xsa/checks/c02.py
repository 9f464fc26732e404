"""C02: activations multiply each channel by one gate computed from its own scalar.

Rule 'gate': the activation is interpreted over uninterpreted feature values; every
output component must be (gate) * (input component at the same position) with a gate
whose dependence set is at most the even scalar of the same batch entry and feature,
and the same value number for all degrees and parity channels (gates written with
different expressions are left to the curve rule).  Rule 'curve': on an
interval partition of the scalar axis the scalar output must contain the closed form
of the scalar activation, and the gate applied to the other components the closed
form divided by the scalar (a closed-form value outside the enclosure is a definite
deviation).
"""

import numpy as np

from .. import arr as A
from ..errors import Unsupported
from .. import curves
from .. import funcs
from .. import ival
from .. import poly
from .. import rep
from .. import run
from ..run import Obligation as Ob
from . import c06
from . import c24


def gate(name, kw, lead, P, L, F):
  s = rep.Session(fold=False)
  run.WORLDS.append(s.w)
  x = np.empty((*lead, P, (L + 1) ** 2, F), dtype=object)
  for ix in np.ndindex(*x.shape):
    x[ix] = poly.var('x', ix, deps=frozenset([ix]), name=f'x{list(ix)}')
  y = s.get('e3x.nn.' + name)(A.Arr(A._obj(x), A.F32, False, True), **kw)
  if tuple(y.shape) != x.shape:
    return [f'{name}: output shape {y.shape} for input shape {x.shape}']
  n = 0
  for b in np.ndindex(*lead):
    for f in range(F):
      g0 = None
      for p in range(P):
        for k in range((L + 1) ** 2):
          ix = (*b, p, k, f)
          v = y.a[ix]
          n += 1
          own = (*b, 0, 0, f)
          d = poly.deps(v)
          bad = d - {own, ix}
          if bad:
            return [f'{name}: output {list(ix)} depends on the input component {list(min(bad))}']
          if p == 0 and k == 0:
            continue
          if not isinstance(v, poly.Poly):
            g = 0 if v == 0 else None
            if g is None:
              return [f'{name}: output {list(ix)} is the constant {v}']
            m = {}
          else:
            a = next(iter(x[ix].d))[0]
            m = {}
            for mon, c in v.d.items():
              if mon.count(a) != 1:
                return [f'{name}: output {list(ix)} is not a multiple of the input component at that position']
              r = list(mon)
              r.remove(a)
              if any(ix in poly._ATOMS[q].deps for q in r):
                return [f'{name}: the gate of output {list(ix)} depends on that component itself']
              m[tuple(r)] = c
          if g0 is None:
            g0 = (ix, m)
          elif set(g0[1]) != set(m) or any(abs(g0[1][q] - m[q]) > 1e-6 for q in m):
            raise Unsupported(f'outputs {list(g0[0])} and {list(ix)} of one channel are scaled by different expressions')
  return dict(problems=[], facts=n)


def curve(name, kw, h):
  s = funcs.session()
  f = s.get('e3x.nn.' + name)
  ref = curves.activation(name, kw)
  fn = funcs.Fn(name, kw, (-1e4, 1e4), c06.act_specials(), 'act')
  n = 0
  for lo, hi in c24.cells_of(fn, h=h):
    a = A._full((2, 9, 1), ival.Iv(1.0, 1.0))
    a[0, 0, 0] = ival.var(lo, hi)
    y = f(A.Arr(a, A.F32, False, True), **kw)
    vals = [ival.lift(y.a[0, 0, 0])]
    gates = [ival.lift(y.a[ix]) for ix in [(p, k, 0) for p in range(2) for k in range(9) if (p, k) != (0, 0)]]
    for x in ([lo] if lo == hi else [lo, 0.5 * (lo + hi), hi]):
      r = ref(x)
      m = c24.compare(f'{name}({kw})', vals, [r], x)
      if m:
        return [m]
      n += 1
      if abs(x) > 1e-10:
        m = c24.compare(f'gate of {name}({kw})', gates, [r / x] * len(gates), x, 1e-4)
      else:
        # next to zero: the gate lies between the one-sided limits of activation(x)/x
        g = [ref(e) / e for e in ((1e-8, -1e-8) if x == 0 else (1e-8,) if x > 0 else (-1e-8,))]
        m = None
        for v in gates:
          if v.v[0] > max(g) + 1e-4 or v.v[1] < min(g) - 1e-4:
            m = f'gate of {name}({kw}) lies in [{v.v[0]:.6g}, {v.v[1]:.6g}] at x = {x:.4g} instead of [{min(g):.6g}, {max(g):.6g}]'
      if m:
        return [m]
      n += len(gates)
  return dict(problems=[], facts=n)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  shapes = [((), 1, 0, 1), ((), 2, 0, 2), ((), 1, 1, 2), ((), 2, 1, 2), ((2,), 1, 2, 2), ((2,), 2, 2, 3), ((2, 2), 2, 1, 2), ((), 2, 3, 1), ((1,), 1, 1, 1)]
  for m in run.mined_ints(2, 12, files=('activations.py',)):
    shapes += [((), 2, min(m, 4), 1), ((m,), 1, 1, 2), ((), 2, 1, m)]
  if th:
    shapes += [((3, 2, 2), 2, 2, 3), ((), 2, 5, 2)]
  for name, kw in c06.ACT:
    for sh in shapes:
      obs.append(Ob(f'{name}({kw}) on {sh}', gate, (name, kw, *sh), 'gate', cost=1))
    obs.append(Ob(f'{name}({kw}) curve', curve, (name, kw, 0.01 if th else 0.05), 'curve', cost=5))
  return obs
