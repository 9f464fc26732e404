"""C03: feature utilities act exactly blockwise on irreps.

Value-provenance analysis: inputs are uninterpreted labelled elements; every
element of the abstract result must be the value number that the specification
demands (the same label, its negation, a sum of labels, or zero), for every
enumerated combination of degrees, parity channels and leading axes.
"""

import itertools

import numpy as np

from .. import arr as A
from .. import poly
from .. import rep
from .. import run
from ..run import Obligation as Ob


def sess():
  s = rep.Session(fold=False)
  run.WORLDS.append(s.w)
  return s


def compare(got, want, what, labels=None):
  """got: Arr, want: object ndarray of expected value numbers."""
  if tuple(got.shape) != tuple(want.shape):
    return [f'{what}: shape {tuple(got.shape)} instead of {tuple(want.shape)}']
  for ix in np.ndindex(*want.shape):
    if not poly.same(got.a[ix], want[ix]):
      return [f'{what}: element {list(ix)} is {got.a[ix]!r} but must be {want[ix]!r}']
  return []


def pick(x, P, p, l, k, b, f):
  """Element of features x for logical parity (0 even, 1 odd); 0 if absent."""
  L = round(x.shape[-2] ** 0.5) - 1
  if l > L:
    return 0
  if x.shape[-3] == 2:
    return x.a[(*b, p, l * l + k, f)]
  return x.a[(*b, 0, l * l + k, f)] if p == l % 2 else 0


def expected_change(x, L, P):
  lead, F = x.shape[:-3], x.shape[-1]
  w = np.empty((*lead, P, (L + 1) ** 2, F), dtype=object)
  for b in np.ndindex(*lead):
    for p in range(P):
      for l in range(L + 1):
        for k in range(2 * l + 1):
          for f in range(F):
            w[(*b, p, l * l + k, f)] = pick(x, P, p if P == 2 else l % 2, l, k, b, f)
  return w


def change(Pin, Lin, L, ps, lead):
  s = sess()
  x = rep.features('x', lead, Pin, Lin, 2)
  kw = {}
  if L != 'default':
    kw['max_degree'] = L
  if ps != 'default':
    kw['include_pseudotensors'] = ps
  y = s.get('e3x.nn.change_max_degree_or_type')(x, **kw)
  Lo = Lin if L in ('default', None) else L
  Po = Pin if ps in ('default', None) else (2 if ps else 1)
  return dict(problems=compare(y, expected_change(x, Lo, Po), 'change_max_degree_or_type'), facts=y.size)


def add(shapes, lead, dt='float32'):
  s = sess()
  xs = [rep.features(f'x{i}', lead, P, L, 2, dtype=A.DType(dt)) for i, (P, L) in enumerate(shapes)]
  y = s.get('e3x.nn.add')(*xs)
  Lo = max(L for _, L in shapes)
  Po = max(P for P, _ in shapes)
  want = sum_obj([expected_change(x, Lo, Po) for x in xs])
  pr = compare(y, want, 'add')
  if y.dtype.name != dt:
    pr.append(f'add: dtype {y.dtype} instead of {dt}')
  return dict(problems=pr, facts=y.size)


def sum_obj(ws):
  r = ws[0]
  for w in ws[1:]:
    r = A.apply(lambda a, b: a + b, r, w)
  return r


def reflect(P, L, lead):
  s = sess()
  x = rep.features('x', lead, P, L, 2)
  y = s.get('e3x.nn.reflect')(x)
  w = x.a.copy()
  for ix in np.ndindex(*w.shape):
    l = int(ix[-2] ** 0.5 + 1e-9)
    if rep.parity(P, ix[-3], l) < 0:
      w[ix] = -w[ix]
  return dict(problems=compare(y, w, 'reflect'), facts=y.size)


def masks(L):
  s = sess()
  pr = []
  for name, par in (('even_degree_mask', 0), ('odd_degree_mask', 1)):
    m = s.get('e3x.nn.' + name)(L)
    w = np.empty(((L + 1) ** 2, 1), dtype=object)
    for i in range((L + 1) ** 2):
      w[i, 0] = int(i ** 0.5 + 1e-9) % 2 == par
    pr += compare(m, w, name)
    if m.dtype.name != 'bool':
      pr.append(f'{name}: dtype {m.dtype} instead of bool')
  return dict(problems=pr, facts=2 * (L + 1) ** 2)


def rotate(P, L, lead, batched):
  s = sess()
  x = rep.features('x', lead, P, L, 2)
  n = (L + 1) ** 2
  D = rep.scalars('D', (*lead, n, n) if batched else (n, n))
  y = s.get('e3x.nn.rotate')(x, D)
  w = np.empty(x.shape, dtype=object)
  for b in np.ndindex(*lead):
    for p in range(P):
      for m in range(n):
        for f in range(2):
          w[(*b, p, m, f)] = A.esum([x.a[(*b, p, l, f)] * D.a[(*(b if batched else ()), l, m)] for l in range(n)])
  return dict(problems=compare(y, w, 'rotate'), facts=y.size)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  mined = run.mined_ints(2, 12, files=('features.py',))
  degs = sorted(set(range(0, 7 if th else 5)) | set(m for m in mined if m <= (12 if th else 8)))
  for Pin, Lin, ps in itertools.product((1, 2), degs, ('default', None, True, False)):
    for L in ['default', None] + degs:
      if not th and isinstance(L, int) and L > 5 and Lin > 5 and L != Lin:
        continue
      obs.append(Ob(f'change_max_degree_or_type P={Pin} L={Lin} -> max_degree={L} include_pseudotensors={ps}',
                    change, (Pin, Lin, L, ps, ()), 'blockwise-copy'))
  for Pin, lead in itertools.product((1, 2), ((2,), (2, 3), (1, 2, 2))):
    for L in (0, 1, 2, 3):
      for ps in (True, False):
        obs.append(Ob(f'change_max_degree_or_type P={Pin} L=2 lead={lead} -> {L} {ps}', change, (Pin, 2, L, ps, lead), 'blockwise-copy'))
  combos = [((P1, L1), (P2, L2)) for P1, P2 in itertools.product((1, 2), repeat=2)
            for L1, L2 in itertools.product((0, 1, 2, 3), repeat=2)]
  for sh in combos:
    obs.append(Ob(f'add {sh}', add, (sh, ()), 'blockwise-sum'))
  for sh in [((1, 2),), ((1, 1), (2, 0), (1, 3)), ((2, 0), (1, 2), (2, 1), (1, 0)), ((1, 0), (1, 1), (2, 2))]:
    obs.append(Ob(f'add {sh}', add, (sh, ()), 'blockwise-sum'))
    obs.append(Ob(f'add {sh} lead=(2,)', add, (sh, (2,)), 'blockwise-sum'))
    obs.append(Ob(f'add {sh} float16', add, (sh, (2,), 'float16'), 'blockwise-sum'))
  for P, L in itertools.product((1, 2), degs):
    obs.append(Ob(f'reflect P={P} L={L}', reflect, (P, L, ()), 'odd-blocks-negated'))
  for P, lead in itertools.product((1, 2), ((2,), (2, 3))):
    obs.append(Ob(f'reflect P={P} L=3 lead={lead}', reflect, (P, 3, lead), 'odd-blocks-negated'))
  for L in degs:
    obs.append(Ob(f'degree masks L={L}', masks, (L,), 'mask-selects-degrees'))
  for P, L in itertools.product((1, 2), (0, 1, 2, 3)):
    obs.append(Ob(f'rotate P={P} L={L}', rotate, (P, L, (), False), 'rotate-contracts-components'))
    obs.append(Ob(f'rotate P={P} L={L} lead=(2,) shared', rotate, (P, L, (2,), False), 'rotate-contracts-components'))
    obs.append(Ob(f'rotate P={P} L={L} lead=(2,) batched', rotate, (P, L, (2,), True), 'rotate-contracts-components'))
  return obs
