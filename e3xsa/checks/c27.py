"""C27: helper predicates and derivative helpers are exact.

Rule 'traceless-symmetric': `is_traceless_symmetric` is interpreted on tensors of
uninterpreted elements; its decisions are terms over these elements, which are valued
on strata: generic traceless symmetric tensors, tensors in which exactly one orbit of one
batch entry breaks the symmetry, tensors whose trace is not zero, deviations below and
above the given tolerances.  Rule 'derivatives': entry i of `evaluate_derivatives` is the
i-fold derivative term of the function, for every order and shape.  Rule 'inverse':
softplus of `inverse_softplus` is the identity term on positive arguments, and the
initial decay parameter of the exponential basis is the requested one.  Rule 'shapes':
`is_broadcastable` decides exactly the broadcasting rule.
"""

import itertools
import math
import random

import numpy as np

from .. import arr as A
from .. import lib
from .. import poly
from .. import rep
from .. import run
from ..errors import AnchorMissing, Unsupported
from ..run import Finding
from ..run import Obligation as Ob
from .c23 import Point


def _sess():
  s = rep.Session(fold=False)
  poly.SELECT[0] = True
  run.WORLDS.append(s.w)
  return s


def tensor(lead, degree):
  a = np.empty((*lead, *(3,) * degree), dtype=object)
  for ix in np.ndindex(*a.shape):
    a[ix] = poly.var('in', ('x', ix), deps=frozenset(['x']), name=f'x{list(ix)}')
  return A.Arr(A._obj(a), A.F32, False, False)


def symmetric(lead, degree, rnd, traceless=True):
  """Generic symmetric (traceless) tensors."""
  out = np.zeros((*lead, *(3,) * degree))
  for b in np.ndindex(*lead):
    # sums of powers of isotropic complex vectors have no trace
    t = np.zeros((3,) * degree, dtype=complex)
    for _ in range(2 * degree + 2):
      u, v = np.linalg.qr(np.array([[rnd.gauss(0, 1) for _ in range(3)] for _ in range(3)]))[0][:2]
      z = u + 1j * v if traceless else np.array([rnd.gauss(0, 1) for _ in range(3)])
      p = z
      for _ in range(degree - 1):
        p = np.multiply.outer(p, z)
      t = t + p * rnd.uniform(0.5, 1.5)
    out[b] = t.real
  return out


def subgroups(n):
  """Generators of proper subgroups of the permutations of n axes."""
  out = []
  for i, j in itertools.combinations(range(n), 2):
    p = list(range(n))
    p[i], p[j] = j, i
    out.append([tuple(p)])
  if n > 2:
    out.append([(*range(1, n), 0)])
    for k in range(n):      # all permutations that fix axis k
      rest = [i for i in range(n) if i != k]
      gens = []
      for a, b in zip(rest, rest[1:]):
        p = list(range(n))
        p[a], p[b] = b, a
        gens.append(tuple(p))
      out.append(gens)
  return out if n > 2 else []


_NULL = {}


def invariant(gens, n, rnd):
  """A generic tensor with exactly the symmetries of a subgroup and no trace in the last two axes."""
  key = (tuple(gens), n)
  if key not in _NULL:
    N = 3 ** n
    e = np.eye(N).reshape(N, *(3,) * n)
    rows = [(e - np.transpose(e, (0, *(1 + p for p in g)))).reshape(N, N).T for g in gens]
    rows.append(np.trace(e, axis1=-2, axis2=-1).reshape(N, -1).T)
    m = np.concatenate(rows)
    _, sv, vt = np.linalg.svd(m)
    _NULL[key] = vt[int((sv > 1e-9).sum()):]
  ns = _NULL[key]
  c = np.array([rnd.gauss(0, 1) for _ in range(len(ns))])
  return (c @ ns).reshape((3,) * n)


def pure_trace(n, rnd):
  """A symmetric tensor of degree 2 or 3 whose traces add up to zero over the components."""
  if n == 2:
    return np.eye(3)
  u = np.array([0.9, -0.4, -0.5])
  t = np.multiply.outer(np.eye(3), u)
  return t + np.transpose(t, (0, 2, 1)) + np.transpose(t, (2, 1, 0))


def decide(s, lead, degree, value, **tol):
  x = tensor(lead, degree)
  pt = Point('', x=value)

  def hook(v):
    return bool(poly.evaluate(v, 0, pt.memo, pt.base) > 0.5)
  A.BOOL_HOOK[0] = hook
  try:
    r = s.get('e3x.so3.is_traceless_symmetric')(x, degree, **tol)
    return bool(r)
  finally:
    A.BOOL_HOOK[0] = None


def traceless(lead, degree):
  s = _sess()
  rnd = random.Random(f'{lead}{degree}')
  out, facts = [], 0

  def expect(value, want, what, **tol):
    nonlocal facts
    facts += 1
    got = decide(s, lead, degree, value, **tol)
    if got != want:
      out.append(Finding('traceless-symmetric', f'degree {degree} batch {list(lead)}', f'is_traceless_symmetric of {what} (degree {degree}, batch shape {list(lead)}) is {got}'))

  if degree < 2:
    v = np.array([rnd.gauss(0, 1) for _ in range(int(np.prod(lead, dtype=int)) * (3 if degree else 1))]).reshape(*lead, 3 if degree else 1)
    if degree:
      expect(v, True, 'a vector')
    return dict(problems=out, facts=facts)
  base = symmetric(lead, degree, rnd)
  expect(base, True, 'a traceless symmetric tensor')
  expect(base * 1e3, True, 'a large traceless symmetric tensor')
  expect(base * 0, True, 'the zero tensor')
  for b in list(np.ndindex(*lead))[:4] + ([tuple(n - 1 for n in lead)] if lead else []):
    # break one symmetric orbit
    for orbit in itertools.combinations_with_replacement(range(3), degree):
      ms = sorted(set(itertools.permutations(orbit)))
      if len(ms) < 2:
        continue
      for pick in {0, len(ms) - 1, rnd.randrange(len(ms))}:
        v = base.copy()
        v[(*b, *ms[pick])] += 0.5 + abs(v[(*b, *ms[pick])])
        # keep all traces: deviation in one element with distinct last indices only changes symmetry
        expect(v, False, f'a tensor with element {list(ms[pick])} of batch entry {list(b)} breaking the symmetry')
    # antisymmetric deviations in every pair of axes
    for p, q in itertools.combinations(range(degree), 2):
      t = np.zeros((3,) * degree)
      for ix in np.ndindex(*t.shape):
        if ix[p] != ix[q] and all(ix[k] == 0 for k in range(degree) if k not in (p, q)):
          t[ix] = (1 if ix[p] < ix[q] else -1) * 0.7
      v = base.copy()
      v[b] = v[b] + t
      expect(v, False, f'a tensor with a part antisymmetric in axes {p}, {q} of batch entry {list(b)}')
    # tensors with the symmetries of a subgroup only
    for gens in subgroups(degree):
      v = base.copy()
      v[b] = invariant(gens, degree, rnd)
      expect(v, False, f'a tensor (batch entry {list(b)}) that is symmetric under the axis permutations {gens} only')
    if degree in (2, 3):
      v = base.copy()
      v[b] = v[b] + pure_trace(degree, rnd)
      if lead and b != (0,) * len(lead):
        v[(0,) * len(lead)] = v[(0,) * len(lead)] - pure_trace(degree, rnd)
      expect(v, False, f'symmetric tensors whose traces compensate (batch entry {list(b)})')
    # symmetric with trace
    for _ in range(2):
      v = base.copy()
      v[b] = symmetric((), degree, rnd, False)
      expect(v, False, f'a symmetric tensor with a trace in batch entry {list(b)}')
    if degree == 2:
      for k in range(3):
        v = base.copy()
        v[(*b, k, k)] += 0.4
        expect(v, False, f'a symmetric matrix with a trace in batch entry {list(b)}')
      v = base.copy()
      v[(*b, 0, 1)] += 2e-3
      expect(v, False, 'a deviation of 2e-3')
      expect(v, True, 'a deviation of 2e-3 with atol=1e-2', atol=1e-2)
      v = base.copy()
      v[(*b, 0, 0)] += 2e-3
      expect(v, False, 'a trace of 2e-3')
      expect(v, True, 'a trace of 2e-3 with atol=1e-2', atol=1e-2)
      v = base.copy()
      v[(*b, 0, 1)] *= 1.001
      expect(v, True, 'a relative deviation of 1e-3 with rtol=1e-2', rtol=1e-2)
    if out:
      break
  return dict(problems=out[:3], facts=facts)


def derivatives(shape, order, which):
  s = _sess()
  j = s.w.lib['jax.numpy']
  f = {'product': lambda v: j.exp(v) * v, 'sine': lambda v: j.sin(v), 'cube': lambda v: v * v * v + j.cos(v)}[which]
  x = rep.scalars('x', shape)
  y = s.get('e3x.ops.evaluate_derivatives')(f, x, max_order=order)
  if len(y) != order + 1:
    return [f'evaluate_derivatives(max_order={order}) returns {len(y)} entries']
  w = f(x)
  out = []
  for i in range(order + 1):
    if y[i] is None:
      return [Finding('derivatives', f'order {i}', f'evaluate_derivatives(max_order={order}): entry {i} is None')]
    r = A.asarr(y[i])
    if tuple(r.shape) != tuple(w.shape):
      return [f'evaluate_derivatives: entry {i} has shape {r.shape}']
    for ix in np.ndindex(*shape):
      if not poly.same(r.a[ix], w.a[ix]):
        out.append(Finding('derivatives', f'order {i}', f'evaluate_derivatives(max_order={order}): entry {i} at {list(ix)} is {r.a[ix]!r} instead of the derivative of order {i}, {w.a[ix]!r}'))
        return out
    n = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
      n[ix] = poly.fn('deriv', w.a[ix], x.a[ix])
    w = A.Arr(A._obj(n), w.dtype, False, True)
  return dict(problems=out, facts=(order + 1) * max(1, x.size))


def softplus(v):
  return v if v > 40 else math.log1p(math.exp(v))


def inverse():
  s = _sess()
  x = rep.scalars('x', (), )
  y = s.get('e3x.ops.inverse_softplus')(x)
  facts, out = 0, []
  for e in np.concatenate([np.linspace(0.01, 5, 60), np.linspace(5, 60, 24), 10.0 ** np.linspace(-4, 0, 12)]):
    pt = Point('', x=np.asarray(e))
    v = poly.evaluate(y.a[()], 0, pt.memo, lambda a, k: float(e))
    facts += 1
    if not abs(softplus(v) - e) <= 1e-6 * max(1, e):
      out.append(Finding('inverse', 'inverse_softplus', f'softplus(inverse_softplus({e:.4g})) = {softplus(v):.6g}'))
      break
  return dict(problems=out, facts=facts)


def initial_gamma(g):
  s = _sess()
  s.hook_tables()
  lib.PARAM_CALL_INIT[0] = True
  seen = []

  def radial(r, num, gamma=None, **k):
    seen.append(gamma)
    return s.get('e3x.nn.exponential_gaussian')(r, num, gamma=gamma, **k)
  r = rep.vectors('r', ())
  inits = []
  A.events().params.clear()
  s.module('e3x.nn.ExponentialBasis', initial_gamma=g)(r, max_degree=1, num=2, radial_fn=radial)
  lib.PARAM_CALL_INIT[0] = False
  ps = [p for p in A.events().params if p.get('value') is not None]
  if not seen or seen[0] is None:
    return [Finding('inverse', 'ExponentialBasis', 'ExponentialBasis: the radial function receives no gamma')]
  if not ps:
    raise Unsupported('no initial value recorded')
  v = ps[0]['value']
  v = float(A.asarr(v).a.reshape(-1)[0])
  gam = A.asarr(seen[0]).a.reshape(-1)[0]
  # value of the term gamma(parameter) at the initial parameter
  got = poly.evaluate(gam, 0, {}, lambda a, k: v) if isinstance(gam, poly.Poly) else float(gam)
  if abs(got - g) > 1e-5 * max(1, g):
    return [Finding('inverse', 'ExponentialBasis', f'ExponentialBasis(initial_gamma={g}): the radial function starts with gamma={got:.6g}')]
  return dict(problems=[], facts=1)


def shapes():
  s = _sess()
  try:
    f = s.get('e3x.util.is_broadcastable')
  except AnchorMissing as e:      # an internal helper
    raise Unsupported(str(e)) from e
  facts = 0
  dims = (1, 2, 3)
  alls = [t for n in range(4) for t in itertools.product(dims, repeat=n)]
  for a in alls:
    for b in alls:
      if len(a) == 3 and len(b) == 3 and 3 in a and 3 in b and 2 in a and 2 in b and a[0] == b[0] == 1:
        continue
      want = all(p == q or p == 1 or q == 1 for p, q in zip(a[::-1], b[::-1]))
      facts += 1
      if bool(f(a, b)) != want:
        return [Finding('shapes', 'is_broadcastable', f'is_broadcastable({a}, {b}) is {not want}')]
  return dict(problems=[], facts=facts)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  for degree in (0, 1, 2, 3, 4) if th else (0, 1, 2, 3):
    for lead in ((), (2,), (1,), (2, 2), (3,)) if degree < 3 or th else ((), (2,)):
      if degree > 3 and lead not in ((), (2,)):
        continue
      obs.append(Ob(f'is_traceless_symmetric degree {degree} batch {lead}', traceless, (lead, degree), 'traceless-symmetric', cost=5 ** degree))
  for shape in ((), (1,), (2,), (2, 2), (2, 1, 3)):
    for order in (0, 1, 2, 3, 4, 6):
      for w in ('product', 'sine', 'cube'):
        if w != 'product' and (shape not in ((), (2,)) and not th):
          continue
        obs.append(Ob(f'evaluate_derivatives {w} {shape} order {order}', derivatives, (shape, order, w), 'derivatives'))
  obs.append(Ob('inverse_softplus', inverse, (), 'inverse'))
  for g in (1.0, 0.3, 2.5, 20.0):
    obs.append(Ob(f'ExponentialBasis(initial_gamma={g})', initial_gamma, (g,), 'inverse'))
  obs.append(Ob('is_broadcastable', shapes, (), 'shapes'))
  return obs
