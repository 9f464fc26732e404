"""C08: masked and padded neighbours have no influence.

Every indexed reduction and message-passing layer is interpreted on a graph in which
some neighbour slots are masked out (explicit mask with a valid index) or padded
(index at or beyond the number of nodes); gathered features, basis, weights and
cutoffs of those slots are fresh uninterpreted values.  Rule 'no-influence': the
result equals, as a value number, the result on the graph without these slots, and its
dependence set contains no label that the latter does not contain.  Rule 'zero-cutoff':
a pair with cutoff value zero leaves the attention result of the graph without it.
"""

import numpy as np

from .. import arr as A
from .. import graphs
from .. import poly
from .. import rep
from .. import run
from ..graphs import GRAPHS, Layout
from ..run import Obligation as Ob
from .c07 import _positive, nodes


def _sess():
  s = rep.Session(fold=False)
  run.WORLDS.append(s.w)
  return s


class Masked(Layout):
  """Layout in which the edges `off` are masked (dense) or replaced by padding (sparse)."""

  def __init__(self, n, edges, fmt, off, order=None, extra=0, lead=(), pad=None, half=False):
    super().__init__(n, edges, fmt, order, extra, lead, pad)
    self.off = off
    self.half = half

  def index(self, which):
    a = super().index(which)
    if self.fmt == 'sparse':
      for b, sl in self.slots.items():
        for s, e in sl.items():
          if e in self.off and (which == 0 or not self.half):
            a.a[(*b, *s)] = self.pads[which]
    return a

  def kwargs(self, where=None, **k):
    kw = super().kwargs(where, **k)
    if 'where' in kw:
      for b, sl in self.slots.items():
        for s, e in sl.items():
          if e in self.off:
            kw['where'].a[(*b, *s)] = False
    return kw

  def data(self, name, d, shape, dtype=A.F32, typed=None):
    a = super().data(name, d, shape, dtype)
    for b, sl in self.slots.items():
      for s, e in sl.items():
        if e in self.off:
          v = graphs.pad_value(name, b, s, shape)
          if shape:
            a.a[(*b, *s)] = v
          else:
            a.a[(*b, *s)] = v[()]
    return a

  def by_edge(self, arr):
    return {k: v for k, v in super().by_edge(arr).items() if k[1] not in self.off}


def cases(g, off, lead):
  """(label, masked layout) pairs; the last element of each tuple asks for `where`."""
  n, edges = GRAPHS[g]
  E = len(edges)
  top = max(n, graphs.sources(g))
  srt = sorted(range(E), key=lambda e: edges[e][0])
  kept = [e for e in srt if e not in off]
  out = []
  for lab, order in (('', srt), (' permuted', srt[::-1])):
    out.append((f'dense masked{lab}', Masked(n, edges, 'dense', off, order, 0, lead), True))
    out.append((f'dense masked+padded{lab}', Masked(n, edges, 'dense', off, order, 1, lead), True))
    out.append((f'dense padded{lab}', Layout(n, edges, 'dense', [e for e in order if e not in off], 2, lead), False))
    out.append((f'dense padded far{lab}', Layout(n, edges, 'dense', [e for e in order if e not in off], 1, lead, pad=top + 3), False))
    out.append((f'sparse padded in place{lab}', Masked(n, edges, 'sparse', off, order, 0, lead), False))
    out.append((f'sparse padded{lab}', Layout(n, edges, 'sparse', [e for e in order if e not in off], 2, lead), False))
    out.append((f'sparse padded far{lab}', Masked(n, edges, 'sparse', off, order, 1, lead, pad=top + 4), False))
    if off:
      out.append((f'sparse destination padded{lab}', Masked(n, edges, 'sparse', off, order, 0, lead, half=True), False))
  return out


def reduced(g, off, lead, fmt):
  n, edges = GRAPHS[g]
  order = sorted((e for e in range(len(edges)) if e not in off), key=lambda e: edges[e][0])
  return Layout(n, edges, fmt, order, 0, lead)


def offs(g):
  n, edges = GRAPHS[g]
  E = len(edges)
  out = [(0,), (E - 1,)]
  if E > 2:
    out.append((0, E - 1))
    out.append((1,))
    # all neighbours of one node
    i = edges[0][0]
    out.append(tuple(e for e in range(E) if edges[e][0] == i))
  return [frozenset(o) for o in dict.fromkeys(out) if len(o) < E]


def check(per, ref, what, it):
  facts = 0
  for k, v in per.items():
    w = ref[k]
    v = np.atleast_1d(np.asarray(v, dtype=object))
    w = np.atleast_1d(np.asarray(w, dtype=object))
    facts += v.size
    for ix in np.ndindex(*v.shape):
      dv = poly.deps(v[ix])
      bad = sorted(map(str, (dv - poly.deps(w[ix])) | {q for q in dv if 'pad' in q}))
      if bad:
        return [f'{what}: result {k}{list(ix)} depends on {bad[:3]} of a masked or padded neighbour'], facts
    p = rep.compare(A.Arr(A._obj(v), A.F32), A._obj(w), f'{what}: result {k} differs from the result without the masked neighbours', it)
    if p:
      return p, facts
  return [], facts


def split(y, lead, n):
  return {(b, i): y.a[(*b, i)] for b in np.ndindex(*lead) for i in range(n)}


def reduction(mode, g, off, lead, shape, keepdims, mask=False):
  s = _sess()
  n, edges = GRAPHS[g]
  d = graphs.edge_data('v', edges, shape, lead)
  c = graphs.edge_data('c', edges, shape, lead)
  it = poly.Interp(base=_positive)
  f = s.get('e3x.ops.indexed_' + mode)
  a = dict(keepdims=True) if keepdims else {}
  per_pair = mode == 'softmax' or keepdims
  facts = 0

  def go(lay, sorted_=None):
    kw = lay.kwargs(where=True, src=False, num_segments=True)
    if mask:
      kw['multiplicative_mask'] = lay.data('c', c, shape)
    y = f(lay.data('v', d, shape), **kw, **a)
    if keepdims and lay.fmt == 'dense':
      y = s.w.lib['jax.numpy'].broadcast_to(y, (*lead, *lay.shape, *shape))
    if per_pair:
      return lay.by_edge(y)
    per = split(y, lead, n)
    if mode != 'sum':      # extrema of empty rows are format dependent
      per = {k: v for k, v in per.items() if any(edges[e][0] == k[1] and e not in off for e in range(len(edges)))}
    return per
  refs = {fmt: go(reduced(g, off, lead, fmt)) for fmt in ('dense', 'sparse')}
  for lab, lay, w in cases(g, off, lead):
    p, k = check(go(lay), refs[lay.fmt], f'indexed_{mode} graph {g} without {sorted(off)} [{lab}]', it)
    facts += k
    if p:
      return p
  return dict(problems=[], facts=facts)


def layer(kind, g, off, lead, P, L, F, Lb, opts, zero=False):
  s = _sess()
  n, edges = GRAPHS[g]
  bs = (1, (Lb + 1) ** 2, 2)
  d = graphs.edge_data('basis', edges, bs, lead)
  c = graphs.edge_data('cut', edges, (), lead)
  wt = graphs.edge_data('w', edges, (1, 1, F), lead)
  x = nodes('x', graphs.sources(g), (P, (L + 1) ** 2, F), lead)
  z = nodes('z', n, (P, (L + 1) ** 2, F), lead)
  it = poly.Interp(3, base=_positive)
  mod = dict(opts)
  cut = mod.pop('cutoff', False) or zero
  weights = mod.pop('weights', False)
  nobasis = mod.pop('nobasis', False)

  def go(lay, where=False, zeros=()):
    kw = lay.kwargs(where=where, num_segments=kind == 'MessagePass' and graphs.bipartite(g))
    if kind == 'MessagePass':
      if weights:
        kw['weights'] = lay.data('w', wt, (1, 1, F))
      y = s.module('e3x.nn.MessagePass', **mod)(x, lay.data('basis', d, bs), **kw)
    else:
      if cut:
        cc = dict(c)
        for (b, e) in c:
          if e in zeros:
            cc[b, e] = np.array(0.0, dtype=object)
        kw['cutoff_value'] = lay.data('cut', cc, ())
      if not nobasis:
        kw['basis'] = lay.data('basis', d, bs)
      if kind == 'SelfAttention':
        y = s.module('e3x.nn.SelfAttention', **mod)(x, **kw)
      else:
        y = s.module('e3x.nn.MultiHeadAttention', **mod)(z, x, **kw)
    return split(y, lead, n)
  facts = 0
  refs = {fmt: go(reduced(g, off, lead, fmt)) for fmt in ('dense', 'sparse')}
  if zero:
    for fmt in ('dense', 'sparse'):
      per = go(Layout(n, edges, fmt, None, 0, lead), zeros=off)
      for k, v in per.items():
        facts += np.size(v)
        p = rep.compare(A.Arr(A._obj(v), A.F32), A._obj(refs[fmt][k]),
                        f'{kind} graph {g} [{fmt}]: node {k} with zero cutoff for pairs {sorted(off)}', it)
        if p:
          return p
    return dict(problems=[], facts=facts)
  for lab, lay, w in cases(g, off, lead):
    p, k = check(go(lay, w), refs[lay.fmt], f'{kind}({opts}) graph {g} without {sorted(off)} [{lab}]', it)
    facts += k
    if p:
      return p
  return dict(problems=[], facts=facts)


MP = [dict(), dict(weights=True), dict(use_fused_tensor=True, max_degree=1, weights=True)]
AT = [dict(), dict(num_heads=2, cutoff=True), dict(use_relative_positional_encoding_v=False, cutoff=True),
      dict(use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=False, nobasis=True)]


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  R = 'no-influence'
  for g in GRAPHS:
    for off in offs(g):
      for lead in ((), (2,)):
        for shape in ((), (2,)):
          for m in ('sum', 'min', 'max'):
            for kd in (False, True):
              obs.append(Ob(f'indexed_{m} {g} off={sorted(off)} lead={lead} data={shape} keepdims={kd}', reduction, (m, g, off, lead, shape, kd), R))
          for mk in (False, True):
            obs.append(Ob(f'indexed_softmax {g} off={sorted(off)} lead={lead} data={shape} mask={mk}', reduction, ('softmax', g, off, lead, shape, False, mk), R, cost=3))
  gs = list(GRAPHS) if th else ['unequal', 'isolated', 'self', 'wide', 'tall']
  for g in gs:
    os_ = offs(g) if th else offs(g)[-2:]
    for off in os_:
      for o in MP:
        obs.append(Ob(f'MessagePass {g} off={sorted(off)} {o}', layer, ('MessagePass', g, off, (), 1, 1, 1, 1, o), R, cost=20))
      for o in AT:
        for k in ('SelfAttention', 'MultiHeadAttention')[graphs.bipartite(g):]:
          obs.append(Ob(f'{k} {g} off={sorted(off)} {o}', layer, (k, g, off, (), 1, 1, 2, 1, o), R, cost=40))
      for k in ('SelfAttention', 'MultiHeadAttention')[graphs.bipartite(g):]:
        for o in (dict(), dict(num_heads=2), dict(use_relative_positional_encoding_v=False)):
          obs.append(Ob(f'{k} zero cutoff {g} off={sorted(off)} {o}', layer, (k, g, off, (), 1, 1, 2, 1, o, True), 'zero-cutoff', cost=10))
  obs.append(Ob('MessagePass batch', layer, ('MessagePass', 'unequal', offs('unequal')[0], (2,), 1, 1, 1, 1, dict(weights=True)), R, cost=40))
  obs.append(Ob('SelfAttention batch', layer, ('SelfAttention', 'unequal', offs('unequal')[0], (2,), 1, 0, 2, 1, dict(cutoff=True)), R, cost=60))
  return obs
