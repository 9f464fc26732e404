"""C26: message passing sums messages and attention averages them.

The layers are interpreted on small graphs over uninterpreted features, basis, weights,
cutoffs and parameters, on the whole graph and on the graphs with a single pair; the
result terms are compared.  Rules: 'sum' (the result at a node is the sum of the results
of its pairs alone; zero without pairs), 'linear' (a message is proportional to its pair
weight and linear in the features of the neighbour), 'average' (for one attention head
the result is a combination of the results of the single pairs with one weight per pair,
common to all components, between zero and one, summing to one; for several heads equal
neighbours leave the result of one of them), 'cutoff' (the weights are proportional to
the cutoff values, and cutoff values of one change nothing), 'score' (the logarithm of
the ratio of two weights is linear in the features of the query and in those of the
neighbours, for projections without bias).
"""

import math

import numpy as np

from .. import arr as A
from .. import graphs
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..graphs import GRAPHS, Layout
from ..run import Finding
from ..run import Obligation as Ob
from .c07 import feats


def _sess():
  s = rep.Session(fold=False)
  run.WORLDS.append(s.w)
  return s


def _base(a, k):
  v = poly._base(a, k)
  if a.kind == 'edge' and a.key[1][0] == 'cut' or a.kind == 'node' and a.key[1][0] == 'cut':
    return 0.1 + abs(v) / 2
  if a.kind == 'par':
    return v * 0.6
  return v


def scaled(x, t):
  return A.Arr(A.apply(lambda v: v * t, x.a), x.dtype, False, True)


def only(g, es, fmt, lead):
  n, edges = GRAPHS[g]
  return Layout(n, edges, fmt, list(es), 0, lead)


# ------------------------------------------------------------ message passing
def messages(g, fmt, lead, P, L, F, Lb, opts, wshape):
  s = _sess()
  n, edges = GRAPHS[g]
  bs = (1, (Lb + 1) ** 2, 2)
  d = graphs.edge_data('basis', edges, bs, lead)
  wt = graphs.edge_data('w', edges, wshape, lead) if wshape is not None else None
  x = feats('x', graphs.sources(g), P, L, F, lead)
  it = poly.Interp(4, base=_base)

  def run_(es, weights=True, x=x):
    lay = only(g, es, fmt, lead)
    kw = lay.kwargs(num_segments=graphs.bipartite(g))
    if wt is not None and weights:
      kw['weights'] = lay.data('w', wt, wshape)
    return s.module('e3x.nn.MessagePass', **opts)(x, lay.data('basis', d, bs), **kw)

  E = sorted(range(len(edges)), key=lambda e: edges[e][0])
  full = run_(E)
  single = {e: run_([e]) for e in E}
  what = f'MessagePass({opts}) graph {g} {fmt}'
  want = np.empty(full.shape, dtype=object)
  want[...] = 0
  for b in np.ndindex(*lead):
    for i in range(full.shape[len(lead)]):
      for e in E:
        if edges[e][0] == i:
          want[(*b, i)] = A.apply(lambda p, q: p + q, want[(*b, i)], single[e].a[(*b, i)])
  out = [Finding('sum', what, m) for m in rep.compare(full, want, f'{what}: result and sum of the messages of the single pairs', it)]
  facts = full.size
  if wt is not None and wshape == (1, 1, 1) and not out:
    for e in E:
      bare = run_([e], weights=False)
      w = bare.a.copy()
      for b in np.ndindex(*lead):
        w[b] = A.apply(lambda v, q=wt[b, e][0, 0, 0]: v * q, bare.a[b])
      facts += w.size
      p = rep.compare(single[e], w, f'{what}: message of pair {edges[e]} and weight times the message without weights', it)
      if p:
        out += [Finding('linear', what, m) for m in p]
        break
  if not out:
    t = poly.var('node', ('t',), name='t')
    y = run_(E, x=scaled(x, t))
    w = A.apply(lambda v: v * t, full.a)
    facts += w.size
    out += [Finding('linear', what, m) for m in rep.compare(y, w, f'{what}: result for scaled features and scaled result', it)]
  return dict(problems=out[:2], facts=facts)


# ------------------------------------------------------------------ attention
class Values:
  """Numerical interpretations of result terms."""

  def __init__(self, n=4):
    self.memo = [dict() for _ in range(n)]

  def of(self, a, k):
    a = np.asarray(a, dtype=object)
    return np.array([poly.evaluate(v, k, self.memo[k], _base) for v in a.flat], dtype=float)


def weights_of(out, parts):
  """Common weights with out = sum w_e parts_e, sum w_e = 1; None when there are none."""
  m = np.array([np.append(p, 1.0) for p in parts]).T
  y = np.append(out, 1.0)
  scale = np.abs(m).max()
  if np.linalg.matrix_rank(m, tol=1e-7 * max(scale, 1)) < len(parts):
    return 'degenerate'
  w, *_ = np.linalg.lstsq(m, y, rcond=None)
  if np.abs(m @ w - y).max() > 1e-6 * max(1.0, np.abs(y).max()):
    return None
  return w


class Attention:

  def __init__(self, kind, g, fmt, P, L, F, Lb, opts):
    self.s = _sess()
    self.kind, self.g, self.fmt = kind, g, fmt
    self.n, self.edges = GRAPHS[g]
    self.bs = (1, (Lb + 1) ** 2, 2)
    self.d = graphs.edge_data('basis', self.edges, self.bs)
    self.c = graphs.edge_data('cut', self.edges, ())
    self.x = feats('x', graphs.sources(g), P, L, F, ())
    self.z = feats('z', self.n, P, L, F, ())
    self.opts = dict(opts)
    self.nobasis = self.opts.pop('nobasis', False)

  def __call__(self, es, cut=None, x=None, z=None, basis=None):
    lay = only(self.g, es, self.fmt, ())
    kw = lay.kwargs()
    if cut is not None:
      kw['cutoff_value'] = lay.data('cut', cut, ())
    if not self.nobasis:
      kw['basis'] = lay.data('basis', self.d if basis is None else basis, self.bs)
    x = self.x if x is None else x
    if self.kind == 'SelfAttention':
      return self.s.module('e3x.nn.SelfAttention', **self.opts)(x, **kw)
    return self.s.module('e3x.nn.MultiHeadAttention', **self.opts)(self.z if z is None else z, x, **kw)

  def name(self):
    return f'{self.kind}({self.opts}) graph {self.g} {self.fmt}'

  def neighbours(self, i):
    return [e for e in range(len(self.edges)) if self.edges[e][0] == i]


def edge_scaled(c, e, t):
  out = dict(c)
  for (b, j), v in c.items():
    if j == e:
      w = np.empty(v.shape, dtype=object)
      w[...] = v[()] * t if v.shape == () else v * t
      out[b, j] = w
  return out


def average(kind, g, fmt, P, L, F, Lb, opts, cutoff):
  a = Attention(kind, g, fmt, P, L, F, Lb, opts)
  E = sorted(range(len(a.edges)), key=lambda e: a.edges[e][0])
  cut = a.c if cutoff else None
  full = a(E, cut)
  single = {e: a([e], cut) for e in E}
  bare = {e: a([e]) for e in E} if cutoff else single
  out, facts = [], 0
  name = a.name()
  vals = Values()
  ws = {}
  for i in range(a.n):
    nb = a.neighbours(i)
    if not nb:
      continue
    for k in range(len(vals.memo)):
      ps = [vals.of(single[e].a[i], k) for e in nb]
      y = vals.of(full.a[i], k)
      if not all(np.isfinite(v).all() for v in [y, *ps]):
        continue
      facts += y.size
      if cutoff:
        for e, p in zip(nb, ps):
          if np.abs(p - vals.of(bare[e].a[i], k)).max() > 1e-6 * max(1.0, np.abs(p).max()):
            return [Finding('cutoff', name, f'{name}: the cutoff value of the only neighbour of a node changes its result (the weights are not normalised)')]
      w = weights_of(y, ps)
      if isinstance(w, str):
        continue
      if w is None:
        return [Finding('average', name, f'{name}: the result at node {i} is no weighted average of the results of its single pairs with weights common to all components that sum to one')]
      if (w < -1e-6).any() or (w > 1 + 1e-6).any():
        return [Finding('average', name, f'{name}: node {i} averages with the weights {np.round(w, 4).tolist()}')]
      ws[i, k] = dict(zip(nb, w))
  if not ws:
    raise Unsupported('no node with independent neighbours')

  def again(rule, msg, y2, expect, parts2=None):
    """Compares the weights of another run with those expected from the first."""
    nonlocal facts
    for (i, k), w in ws.items():
      nb = list(w)
      ps = [vals.of((single if parts2 is None else parts2)[e].a[i], k) for e in nb]
      v = weights_of(vals.of(y2.a[i], k), ps)
      if isinstance(v, str):
        continue
      facts += 1
      u = expect(i, k, w)
      if v is None or u is not None and np.abs(v - u).max() > 1e-5:
        return [Finding(rule, name, f'{name}: {msg}')]
    return []

  T = 1.7
  if cutoff:
    e0 = a.neighbours(min(i for i, _ in ws))[-1]

    def odds(i, k, w):
      u = np.array([w[e] * (T if e == e0 else 1) for e in w])
      return u / u.sum()
    out += again('cutoff', 'the weights are not proportional to the cutoff values', a(E, edge_scaled(a.c, e0, T)), odds)
    one = {q: np.array(1.0, dtype=object) for q in a.c}
    out += [Finding('cutoff', name, m) for m in rep.compare(a(E, one), a(E).a, f'{name}: cutoff values of one against no cutoff', poly.Interp(4, base=_base))]
  elif not any(o in opts for o in ('query_use_bias', 'key_use_bias')):
    def power(t):
      def f(i, k, w):
        u = np.array([max(w[e], 1e-300) for e in w]) ** t
        return u / u.sum()
      return f
    if kind == 'MultiHeadAttention':
      out += again('score', 'the logarithm of the weight ratio is not linear in the query features', a(E, z=scaled(a.z, T)), power(T))
      x2 = scaled(a.x, T)
      parts = {e: a([e], x=x2) for e in E}
      out += again('score', 'the logarithm of the weight ratio is not linear in the neighbour features', a(E, x=x2), power(T), parts)
    elif not out:
      x2 = scaled(a.x, T)
      parts = {e: a([e], x=x2) for e in E}
      out += again('score', 'the logarithm of the weight ratio is not quadratic in the features', a(E, x=x2), power(T * T), parts)
  return dict(problems=out[:2], facts=facts)


def equal_neighbours(kind, fmt, P, L, F, Lb, opts, cutoff):
  """Equal neighbours (features and basis): the average is the single result, for any heads."""
  g = 'wide'
  a = Attention('MultiHeadAttention', g, fmt, P, L, F, Lb, opts)
  x = np.empty_like(a.x.a)
  for j in range(x.shape[0]):
    x[j] = a.x.a[0]
  x = A.Arr(A._obj(x), A.F32, False, True)
  d = {k: a.d[k[0], 0] for k in a.d}
  cut = a.c if cutoff else None
  E = sorted(range(len(a.edges)), key=lambda e: a.edges[e][0])
  it = poly.Interp(4, base=_base)
  y = a(E, cut, x=x, basis=d)
  first = [a.neighbours(i)[0] for i in range(a.n)]
  ref = a(first, None, x=x, basis=d)
  name = a.name()
  return dict(problems=[Finding('average', name, m) for m in rep.compare(y, ref.a, f'{name}: equal neighbours against one of them', it)], facts=y.size)


def isolated(kind, fmt, P, L, F, Lb, opts):
  """A node without neighbours receives the output bias only."""
  a = Attention(kind, 'isolated', fmt, P, L, F, Lb, opts)
  y = a(range(len(a.edges)), None)
  i = [j for j in range(a.n) if not a.neighbours(j)][0]
  name = a.name()
  bad = sorted({str(q) for v in y.a[i].flat for q in poly.deps(v) if q and q[0] in ('x', 'z', 'basis')})
  it = poly.Interp(4, base=_base)
  if not opts.get('output_use_bias', True):
    z = np.empty(y.a[i].shape, dtype=object)
    z[...] = 0
    p = rep.compare(A.Arr(A._obj(y.a[i]), A.F32), z, f'{name}: node without neighbours', it)
    return dict(problems=[Finding('sum', name, m) for m in p], facts=y.a[i].size)
  L1 = y.a[i].copy()
  z = A._full(L1[..., 1:, :].shape, 0)
  p = rep.compare(A.Arr(A._obj(L1[..., 1:, :]), A.F32), z, f'{name}: higher degrees of a node without neighbours', it) if L1.shape[-2] > 1 else []
  vals = Values(2)
  # the value is the same for other inputs
  y2 = a(range(len(a.edges)), None, x=scaled(a.x, 1.3))
  p += rep.compare(A.Arr(A._obj(y2.a[i]), A.F32), y.a[i], f'{name}: node without neighbours for other features', it)
  return dict(problems=[Finding('sum', name, m) for m in p], facts=y.a[i].size)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  gs = ['unequal', 'isolated', 'self', 'full', 'multi', 'wide', 'tall', 'gap', 'one']
  MP = [dict(), dict(max_degree=2), dict(include_pseudotensors=False), dict(use_fused_tensor=True), dict(use_basis_bias=True), dict(max_degree=0)]
  for fmt in ('dense', 'sparse'):
    for g in gs:
      for o in MP:
        if o and g not in ('unequal', 'tall') and not th:
          continue
        for lead in ((), (2,)):
          if lead and (o or g in ('full', 'self', 'gap')) and not th:
            continue
          for P, L, F, Lb in ((1, 1, 2, 1), (2, 1, 2, 0)) + (((2, 2, 2, 1),) if th else ()):
            if P == 2 and (o or g not in ('unequal', 'wide')) and not th:
              continue
            obs.append(Ob(f'MessagePass({o}) {g} {fmt} lead={lead} P={P} L={L} Lb={Lb}', messages, (g, fmt, lead, P, L, F, Lb, o, None), 'sum', cost=20))
    for ws in ((1, 1, 1), (1, 1, 2), (1, 4, 2)):
      obs.append(Ob(f'MessagePass weights {ws} {fmt}', messages, ('unequal', fmt, (), 1, 1, 2, 1, {}, ws), 'linear', cost=25))
    QK = dict(use_relative_positional_encoding_qk=False)
    V = dict(use_relative_positional_encoding_v=False)
    AT = [dict(), dict(max_degree=1), QK, V, dict(**QK, **V), dict(**QK, **V, nobasis=True), dict(query_use_bias=True, key_use_bias=True, value_use_bias=True),
          dict(output_use_bias=False), dict(qkv_features=3, out_features=2), dict(include_pseudotensors=False, use_fused_tensor=True), dict(use_basis_bias=True)]
    for kind in ('MultiHeadAttention', 'SelfAttention'):
      for o in AT:
        for g in (('unequal', 'full') if kind == 'SelfAttention' else ('unequal', 'wide')) + (('self', 'multi') if th else ()):
          for cutoff in (False, True):
            for P, L in ((1, 1), (2, 1)) if th or not o else ((1, 1),):
              obs.append(Ob(f'{kind}({o}) {g} {fmt} cutoff={cutoff} P={P} L={L}', average, (kind, g, fmt, P, L, 2, 1, {'max_degree': 1, **o}, cutoff), 'average', cost=60))
      for o in (dict(), dict(output_use_bias=False), dict(**QK, **V), dict(num_heads=2)):
        obs.append(Ob(f'{kind}({o}) isolated {fmt}', isolated, (kind, fmt, 1, 1, 2, 1, {'max_degree': 1, **o}), 'sum', cost=20))
    for o in (dict(num_heads=2), dict(num_heads=2, qkv_features=4), dict(num_heads=3, qkv_features=3, out_features=1), dict(num_heads=2, **QK), dict(num_heads=2, **V), dict()):
      for cutoff in (False, True):
        obs.append(Ob(f'equal neighbours {o} {fmt} cutoff={cutoff}', equal_neighbours, ('MultiHeadAttention', fmt, 1, 1, 2, 1, {'max_degree': 1, **o}, cutoff), 'average', cost=30))
  return obs
