"""C31: default initialisation preserves zero mean and unit variance.

Layers are interpreted on independent inputs with exact coupling coefficients; the outputs
are polynomials in inputs and parameters, whose initial values are scaled draws with known
moments.  The variance of each output is the sum over its monomials of the squared
coefficient times the variances of the weights.  Rule 'mean': every monomial holds a weight
whose draw has mean zero (biases start at zero).  Rule 'variance': Dense and Tensor outputs
have variance one wherever a path reaches them; so have fused products for their scalar
outputs, and for all outputs if all degrees agree and are even (elsewhere the documented
normalisation is approximate); so have TensorDense outputs up to the share of pairs of equal
features.
"""

import collections
import itertools

import numpy as np

from .. import arr as A
from .. import elem
from .. import lib
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..run import Obligation as Ob
from . import c18
from . import c30


_T = {}


def cg_table(L):
  if L not in _T:
    n = (L + 1) ** 2
    a = A._full((n, n, n), 0.0)
    for l1, l2, l3 in itertools.product(range(L + 1), repeat=3):
      if abs(l1 - l2) <= l3 <= l1 + l2:
        r = c30.coupling_block(l1, l2, l3)
        for i, j, k in zip(*np.nonzero(abs(r) > 1e-13)):
          a[l1 * l1 + i, l2 * l2 + j, l3 * l3 + k] = float(r[i, j, k])
    _T[L] = a
  return A.Arr(_T[L].copy(), A.F64, False, False, True)


def session():
  old = rep.cg_table
  rep.cg_table = cg_table
  s = c18.session()
  s.hook_tables()
  lib.PARAM_CALL_INIT[0] = True
  return s, lambda: setattr(rep, 'cg_table', old)


# The library initialisers' contract: (scale, fan).
LIBRARY = dict(lecun=(1.0, 'in'), he=(2.0, 'in'), glorot=(1.0, 'avg'))


def spread(atom):
  """(mean, standard deviation) of a draw."""
  dist, _, shape, _, extra, _ = atom.key[1]
  m = dist.split('_')
  if m[0] == 'init' and not extra and len(m) == 3 and m[1] in LIBRARY and m[2] in ('normal', 'uniform') and len(shape) >= 2:
    field = int(np.prod(shape[:-2]))
    fin, fout = shape[-2] * field, shape[-1] * field
    scale, fan = LIBRARY[m[1]]
    return 0.0, (scale / (fin if fan == 'in' else (fin + fout) / 2)) ** 0.5
  return c18.spread(atom)[1:]


class Moments:

  def __init__(self):
    self.ev = {p['path']: p for p in A.events().params}
    self.memo = {}

  def value(self, key):
    if key not in self.memo:
      hits = [p for q, p in self.ev.items() if q == key[0] or q.endswith('/' + key[0])]
      if len(hits) != 1:
        raise Unsupported(f'parameter {key[0]}')
      p = hits[0]
      if not elem.is_abs(p['value'].a[key[1]]):
        v = float(p['value'].a[key[1]])
        self.memo[key] = (v, 0.0)
      else:
        u = c18.unscaled(p['value'].a[key[1]])
        if u is None:
          raise Unsupported(f'initial value of {key} is not a scaled draw')
        mean, std = spread(u[1])
        self.memo[key] = (u[0] * mean + u[2], (abs(u[0]) * std) ** 2)
    return self.memo[key]


def variance(e, mom, pairs=None):
  """(mean is zero, variance of the output over weights and inputs)."""
  groups = collections.defaultdict(lambda: collections.defaultdict(float))
  for mon, c in poly.lift(e).items():
    w, x, other = [], [], 1.0
    for i in mon:
      a = poly._ATOMS[i]
      if a.kind == 'par':
        w.append(a.key[1])
      elif a.kind == 'in':
        x.append(a.key[1] + (tuple(a.slots),))
      else:
        raise Unsupported(f'output depends on {a.kind}')
    if pairs and len(x) == 2 and x[0][4] == x[1][4]:
      continue
    groups[tuple(sorted(w, key=repr))][tuple(sorted(x))] += c
  total, centred = 0.0, True
  for w, xs in groups.items():
    v, ok = 1.0, len(set(w)) < len(w)
    for k in set(w):
      m, s = mom.value(k)
      n = w.count(k)
      if n == 1:
        v *= s + m * m
        ok |= abs(m) < 1e-6
      else:
        raise Unsupported('a weight enters twice')
    q = 0.0
    for x, c in xs.items():
      if len(set(x)) < len(x):
        raise Unsupported('an input enters twice')
      q += c * c
    if v * q > 1e-14:
      centred &= ok
    total += v * q
  return centred, total


def reachable(P1, L1, P2, L2, P3, p, l):
  q = rep.parity(P3, p, l)
  return any(abs(l1 - l2) <= l <= l1 + l2 and rep.parity(P1, p1, l1) * rep.parity(P2, p2, l2) == q
             for p1, l1, p2, l2 in itertools.product(range(P1), range(L1 + 1), range(P2), range(L2 + 1)))


def judge(what, z, mom, want, pairs=None):
  P, M, F = z.shape[-3:]
  n = 0
  for p in range(P):
    for k in range(M):
      l = int(k ** 0.5)
      w = want(p, l)
      if w is None:
        continue
      for f in range(F):
        n += 1
        ok, v = variance(z.a[p, k, f], mom, pairs)
        at = f'{what}: output of parity channel {p}, degree {l}, feature {f}'
        if not ok:
          return [run.Finding('mean', what, f'{at} does not have mean zero initially', None)], n
        if abs(v - w) > 1e-4 * max(w, 0.01):
          return [run.Finding('variance', what, f'{at} has variance {v:.6g} instead of {w:.6g} initially', None)], n
  return [], n


def product(cls_, P1, L1, P2, L2, L3, ps, F=1):
  s, undo = session()
  try:
    x, y = rep.features('x', (), P1, L1, F), rep.features('y', (), P2, L2, F)
    z = A.asarr(s.module('e3x.nn.' + cls_, max_degree=L3, include_pseudotensors=ps)(x, y))
    mom = Moments()
    P3 = z.shape[-3]
    l3 = max(L1, L2) if L3 is None else L3

    def want(p, l):
      if cls_ == 'FusedTensor' and l and not (L1 == L2 == l3 and l3 % 2 == 0):
        return None
      return 1.0 if reachable(P1, L1, P2, L2, P3, p, l) else 0.0
    out, n = judge(f'{cls_}(max_degree={L3}, include_pseudotensors={ps}) of features with {P1} and {P2} parity channels and degrees up to {L1} and {L2}', z, mom, want)
  finally:
    undo()
  return dict(problems=out, facts=n)


def dense(P, L, F, out, bias):
  s, undo = session()
  try:
    x = rep.features('x', (), P, L, F)
    z = A.asarr(s.module('e3x.nn.Dense', features=out, use_bias=bias)(x))
    r, n = judge(f'Dense(features={out}, use_bias={bias}) of features {(P, (L + 1) ** 2, F)}', z, Moments(), lambda p, l: 1.0)
  finally:
    undo()
  return dict(problems=r, facts=n)


def tensor_dense(P, L, F, out, L3, ps):
  s, undo = session()
  try:
    x = rep.features('x', (), P, L, F)
    z = A.asarr(s.module('e3x.nn.TensorDense', features=out, max_degree=L3, include_pseudotensors=ps, use_fused_tensor=False)(x))
    P3 = z.shape[-3]
    want = lambda p, l: (1 - 1 / F) if reachable(P, L, P, L, P3, p, l) else 0.0
    r, n = judge(f'TensorDense(features={out}, max_degree={L3}, include_pseudotensors={ps}) of features {(P, (L + 1) ** 2, F)}', z, Moments(), want, True)
  finally:
    undo()
  return dict(problems=r, facts=n)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  mined = [m for m in run.mined_ints(3, 9, files=('modules.py', 'initializers.py')) if m <= (7 if th else 6)]
  add = lambda name, fn, args, cost=1: obs.append(Ob(name, fn, args, 'variance', cost=cost))
  for P, (F, out), bias in itertools.product((1, 2), ((1, 2), (3, 2), (7, 1), (40, 1)), (True, False)):
    for L in sorted({0, 1, 3} | set(mined)):
      if F < 40 or L < 2:
        add(f'Dense P={P} L={L} {F}->{out} bias={bias}', dense, (P, L, F, out, bias))
  degs = [(a, b, c) for a, b in itertools.product(range(3), repeat=2) for c in [None] + list(range(a + b + 1))] + [(3, 2, 3), (3, 3, 1), (1, 3, 4), (3, 3, None)]
  degs += [(m, 1, m) for m in mined] + [(1, m, m) for m in mined] + [(m, m, 0) for m in mined] + [(m, m, m) for m in mined if m <= 4 or th]
  if th:
    degs += [(4, 3, 5), (4, 4, 8), (2, 4, 6), (5, 2, 3)]
  for (L1, L2, L3), P1, P2, ps in itertools.product(degs, (1, 2), (1, 2), (True, False)):
    if max(L1, L2) > 2 and not th and (P1 > P2 or not ps):
      continue
    add(f'Tensor P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps}', product, ('Tensor', P1, L1, P2, L2, L3, ps, 2 if L1 + L2 < 2 else 1), 1 + L1 * L2)
    if max(L1, L2, L3 or 0) <= 4 or L3 == 0:
      add(f'FusedTensor P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps}', product, ('FusedTensor', P1, L1, P2, L2, L3, ps), 2 + L1 * L2)
  for P1, P2, ps in itertools.product((1, 2), (1, 2), (True, False)):
    for L in (4, 6) if th else (4,):
      if (P1, P2, ps) in ((1, 1, True), (2, 2, True), (1, 2, False)) or th:
        add(f'FusedTensor P1={P1} P2={P2} all degrees {L} pseudo={ps}', product, ('FusedTensor', P1, L, P2, L, L, ps), 60)
  for P, L, F, ps in itertools.product((1, 2), (0, 1, 2), (2, 3), (True, False)):
    for L3 in (None, 0, L + 1):
      if L3 is None or L3 <= 2 * L:
        add(f'TensorDense P={P} L={L} F={F} max_degree={L3} pseudo={ps}', tensor_dense, (P, L, F, None if F == 2 else 1, L3, ps), 2 + 5 * L * F)
  return obs
