"""C07: dense and sparse neighbourhoods describe the same operation.

Every indexed operation and message-passing layer is interpreted over uninterpreted
feature values, edge data and parameters, once per representation of the same graph
(dense adjacency, sparse pair list, permuted neighbours and pairs, additional
padding, batch axes).  Rule 'same-result': all representations yield equal value
numbers per node and per edge (terms written differently are compared by random
interpretation).  Rule 'same-pairs': index conversions and pairwise index builders
list exactly the pairs of the graph, for every graph and padding of the enumeration.
"""

import itertools
import math

import numpy as np

from .. import arr as A
from .. import graphs
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..graphs import GRAPHS, Layout
from ..run import Obligation as Ob


def _sess():
  s = rep.Session(fold=False)
  run.WORLDS.append(s.w)
  return s


def layouts(g, lead=(), th=False):
  n, edges = GRAPHS[g]
  E = len(edges)
  srt = sorted(range(E), key=lambda e: edges[e][0])
  out = [('dense', Layout(n, edges, 'dense', srt, lead=lead)),
         ('dense padded', Layout(n, edges, 'dense', srt, 2, lead)),
         ('dense permuted', Layout(n, edges, 'dense', srt[::-1], lead=lead)),
         ('sparse', Layout(n, edges, 'sparse', srt, lead=lead)),
         ('sparse permuted', Layout(n, edges, 'sparse', srt[::-1], lead=lead)),
         ('sparse padded', Layout(n, edges, 'sparse', srt, 2, lead))]
  if E > 2:
    out.append(('sparse rotated', Layout(n, edges, 'sparse', srt[1:] + srt[:1], lead=lead)))
  if lead:
    bs = list(np.ndindex(*lead))
    pb = {b: (srt if i % 2 == 0 else srt[::-1]) for i, b in enumerate(bs)}
    out.append(('sparse mixed', Layout(n, edges, 'sparse', srt, lead=lead, per_batch=pb)))
    out.append(('dense mixed', Layout(n, edges, 'dense', srt, 1, lead=lead, per_batch=pb)))
  return out


def nodes(name, n, shape, lead):
  a = np.empty((*lead, n, *shape), dtype=object)
  for ix in np.ndindex(*a.shape):
    a[ix] = poly.var('node', (name, ix), deps=frozenset([(name, ix)]), name=f'{name}{list(ix)}')
  return A.Arr(A._obj(a), A.F32, False, True)


def eq(it, a, b, what):
  a, b = np.atleast_1d(np.asarray(a, dtype=object)), np.atleast_1d(np.asarray(b, dtype=object))
  return rep.compare(A.Arr(A._obj(a), A.F32), A._obj(b), what, it)


def gather(which, g, lead, shape):
  s = _sess()
  n, edges = GRAPHS[g]
  x = nodes('x', n if which == 'dst' else graphs.sources(g), shape, lead)
  f = s.get('e3x.ops.gather_' + which)
  it = poly.Interp()
  facts = 0
  for lab, lay in layouts(g, lead):
    kw = lay.kwargs()
    y = f(x, **kw)
    if which == 'dst' and lay.fmt == 'dense':
      want_shape = (*lead, n, 1, *shape)
      if tuple(y.shape) not in (want_shape, (*lead, *lay.shape, *shape)):
        return [f'gather_dst [{lab}]: shape {y.shape} does not broadcast against the neighbour axis']
      y = s.w.lib['jax.numpy'].broadcast_to(y, (*lead, *lay.shape, *shape))
    if tuple(y.shape) != (*lead, *lay.shape, *shape):
      return [f'gather_{which} [{lab}]: shape {y.shape} instead of {(*lead, *lay.shape, *shape)}']
    for (b, e), v in lay.by_edge(y).items():
      p = eq(it, v, x.a[(*b, edges[e][0 if which == 'dst' else 1])], f'gather_{which} [{lab}] graph {g} edge {edges[e]}')
      facts += 1
      if p:
        return p
  return dict(problems=[], facts=facts)


def reduction(mode, g, lead, shape, keepdims, sorted_flag):
  s = _sess()
  n, edges = GRAPHS[g]
  d = graphs.edge_data('v', edges, shape, lead)
  it = poly.Interp()
  ref = None
  facts = 0
  deg = [sum(e[0] == i for e in edges) for i in range(n)]
  f = s.get('e3x.ops.indexed_' + mode)
  for lab, lay in layouts(g, lead):
    if mode == 'softmax' and lay.fmt == 'sparse' and 'padded' in lab and False:
      continue
    kw = lay.kwargs(where=True, src=False, num_segments=True, is_sorted=(True if sorted_flag and lab in ('sparse', 'sparse padded') else None))
    a = dict(keepdims=True) if keepdims else {}
    y = f(lay.data('v', d, shape), **kw, **a)
    if mode == 'softmax':
      per = lay.by_edge(y)
    elif keepdims:
      if lay.fmt == 'dense':
        y = s.w.lib['jax.numpy'].broadcast_to(y, (*lead, *lay.shape, *shape))
      per = lay.by_edge(y)
    else:
      if tuple(y.shape) != (*lead, n, *shape):
        return [f'indexed_{mode} [{lab}]: shape {y.shape} instead of {(*lead, n, *shape)}']
      per = {(b, i): y.a[(*b, i)] for b in np.ndindex(*lead) for i in range(n) if mode == 'sum' or deg[i]}
    if ref is None:
      ref = per
      # definition of the reduction on the first representation
      for (b, j), v in per.items():
        i = edges[j][0] if (keepdims or mode == 'softmax') else j
        vs = [d[b, e] for e in range(len(edges)) if edges[e][0] == i]
        for ix in np.ndindex(*shape):
          xs = [q[ix] for q in vs]
          if mode == 'sum':
            w = sum(xs, 0)
          elif mode in ('min', 'max'):
            w = (poly.pmin if mode == 'min' else poly.pmax)(*xs)
          else:
            ex = [poly.fn('exp', q) for q in xs]
            w = poly.fn('exp', d[b, j][ix]) / sum(ex, 0)
          r = it.equiv(np.asarray(v, dtype=object)[ix] if shape else v, w)
          facts += 1
          if r is False:
            return [f'indexed_{mode} [{lab}] graph {g}: entry {j} is not the {mode} over the neighbours of node {i}']
          if r is None:
            raise Unsupported('comparison undefined')
      continue
    for k, v in per.items():
      p = eq(it, v, ref[k], f'indexed_{mode} graph {g}: [{lab}] and [dense] differ at {k}')
      facts += 1
      if p:
        return p
  return dict(problems=[], facts=facts)


def scaled(draw, name):
  def base(a, k):
    if a.kind != 'edge' or a.key[1][0] != name:
      return poly._base(a, k)
    return draw(poly._base(a, k))
  return base


# values of every magnitude the data type has room for
FLOATS = [('negative and large', lambda r: -1e30 * (2.1 + r)), ('positive and large', lambda r: 1e30 * (2.1 + r)), ('of both signs and large', lambda r: 1e20 * r),
          ('near the end of the range', lambda r: -3.3e38 - 3e36 * r), ('tiny', lambda r: 1e-30 * (2.1 + r)), ('negative and moderate', lambda r: -1e3 * (2.1 + r)),
          ('positive and moderate', lambda r: 1e3 * (2.1 + r)), ('negative and tiny', lambda r: -1e-30 * (2.1 + r))]
INTS = [('negative and large', lambda r: float(-2 ** 31 + 1 + int(1e6 * (2 + r)))), ('positive and large', lambda r: float(2 ** 31 - 2 - int(1e6 * (2 + r)))),
        ('negative', lambda r: float(-int(1e6 * (2 + r)))), ('positive', lambda r: float(int(1e6 * (2 + r))))]
SHIFTS = [('negative and large', lambda r: -1e6 + r), ('positive and large', lambda r: 1e6 + r), ('far apart', lambda r: 300 * r), ('negative and huge', lambda r: -1e12 * (2.1 + r)),
          ('positive and moderate', lambda r: 90 + r), ('negative and moderate', lambda r: -110 + r)]

MASKS = [('tiny masks', lambda r: 1e-30 * (2.1 + r)), ('small masks', lambda r: 1e-12 * (2.1 + r)), ('moderate masks', lambda r: 1e-4 * (2.1 + r)),
         ('full masks', lambda r: 1.0), ('masks of all sizes', lambda r: 10.0 ** (-4 * (2 + r)))]


def magnitudes(*args):
  """The reduction is the documented one for values of every magnitude."""
  old, poly.IND_TOL[0] = poly.IND_TOL[0], 0.0
  try:
    return _magnitudes(*args)
  finally:
    poly.IND_TOL[0] = old


def _magnitudes(mode, g, lead, keepdims, dt):
  s = _sess()
  n, edges = GRAPHS[g]
  d = graphs.edge_data('v', edges, (), lead)
  masked = mode == 'masked softmax'
  mode = mode.split()[-1]
  c = graphs.edge_data('c', edges, (), lead)
  f = s.get('e3x.ops.indexed_' + mode)
  dtype = A.I32 if dt == 'int32' else A.F32
  facts = 0
  for lab, lay in layouts(g, lead):
    kw = lay.kwargs(where=True, src=False, num_segments=True)
    if masked:
      kw['multiplicative_mask'] = lay.data('c', c, ())
    y = f(lay.data('v', d, (), dtype=dtype), **kw, **(dict(keepdims=True) if keepdims else {}))
    per_edge = keepdims or mode == 'softmax'
    if per_edge:
      if lay.fmt == 'dense':
        y = s.w.lib['jax.numpy'].broadcast_to(y, (*lead, *lay.shape))
      per = lay.by_edge(y)
    else:
      per = {(b, i): y.a[(*b, i)] for b in np.ndindex(*lead) for i in range(n)}
    for what, draw in INTS if dt == 'int32' else MASKS if masked else SHIFTS if mode == 'softmax' else FLOATS:
      if mode == 'sum' and ('large' in what or 'near' in what) and (dt == 'int32' or 'near' in what):
        continue
      base = scaled(draw, 'c' if masked else 'v')
      memo = {}
      for (b, j), v in per.items():
        i = edges[j][0] if per_edge else j
        xs = [poly.evaluate(d[b, e][()], 0, memo, base) for e in range(len(edges)) if edges[e][0] == i]
        if not xs:
          continue
        if mode == 'softmax':
          m = max(xs)
          cs = [poly.evaluate(c[b, e][()], 0, memo, base) if masked else 1.0 for e in range(len(edges)) if edges[e][0] == i]
          w = math.exp(poly.evaluate(d[b, j][()], 0, memo, base) - m) / sum(q * math.exp(x - m) for x, q in zip(xs, cs))
          w *= poly.evaluate(c[b, j][()], 0, memo, base) if masked else 1.0
        else:
          w = dict(sum=sum, min=min, max=max)[mode](xs)
        v = np.asarray(v, dtype=object)[()]
        got = poly.evaluate(v, 0, memo, base)
        facts += 1
        if not abs(got - w) <= 1e-6 * max(abs(w), max(map(abs, xs)) if mode == 'sum' else 1e-6 if mode == 'softmax' else 0.0):
          return [f'indexed_{mode} [{lab}] of {dt} values graph {g}: entry {j} is {got:.9g} but the {mode} over the neighbours of node {i} is {w:.9g} when the values are {what}']
  return dict(problems=[], facts=facts)


def softmax_mask(g, lead, shape):
  s = _sess()
  n, edges = GRAPHS[g]
  d = graphs.edge_data('v', edges, shape, lead)
  c = graphs.edge_data('c', edges, shape, lead)
  it = poly.Interp(base=_positive)
  ref = None
  facts = 0
  f = s.get('e3x.ops.indexed_softmax')
  for lab, lay in layouts(g, lead):
    kw = lay.kwargs(where=True, src=False, num_segments=True)
    y = f(lay.data('v', d, shape), multiplicative_mask=lay.data('c', c, shape), **kw)
    per = lay.by_edge(y)
    if ref is None:
      ref = {}
      for (b, j) in per:
        i = edges[j][0]
        es = [e for e in range(len(edges)) if edges[e][0] == i]
        w = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
          den = sum((poly.fn('exp', d[b, e][ix]) * c[b, e][ix] for e in es), 0)
          w[ix] = poly.fn('exp', d[b, j][ix]) * c[b, j][ix] / den
        ref[b, j] = w
    for k, v in per.items():
      facts += 1
      p = eq(it, v, ref[k], f'indexed_softmax with multiplicative_mask graph {g} [{lab}] at {k}')
      if p:
        return p
  return dict(problems=[], facts=facts)


def _positive(a, k):
  v = poly._base(a, k)
  return abs(v) + 0.1 if a.kind == 'edge' else v


def feats(name, n, P, L, F, lead):
  return nodes(name, n, (P, (L + 1) ** 2, F), lead)


def layer(kind, g, lead, P, L, F, Lb, opts):
  s = _sess()
  n, edges = GRAPHS[g]
  bs = (1, (Lb + 1) ** 2, 2)
  d = graphs.edge_data('basis', edges, bs, lead)
  c = graphs.edge_data('cut', edges, (), lead)
  x = feats('x', graphs.sources(g), P, L, F, lead)
  z = feats('z', n, P, L, F, lead)
  wt = graphs.edge_data('w', edges, (1, 1, F), lead)
  it = poly.Interp(3)
  mod = dict(opts)
  cut = mod.pop('cutoff', False)
  weights = mod.pop('weights', False)
  nobasis = mod.pop('nobasis', False)
  ref = None
  facts = 0
  for lab, lay in layouts(g, lead):
    kw = lay.kwargs(num_segments=kind == 'MessagePass' and graphs.bipartite(g))
    if kind == 'MessagePass':
      if weights:
        kw['weights'] = lay.data('w', wt, (1, 1, F))
      y = s.module('e3x.nn.MessagePass', **mod)(x, lay.data('basis', d, bs), **kw)
    else:
      if cut:
        kw['cutoff_value'] = lay.data('cut', c, ())
      if not nobasis:
        kw['basis'] = lay.data('basis', d, bs)
      if kind == 'SelfAttention':
        y = s.module('e3x.nn.SelfAttention', **mod)(x, **kw)
      else:
        y = s.module('e3x.nn.MultiHeadAttention', **mod)(z, x, **kw)
    if ref is None:
      ref = y
      continue
    facts += y.size
    p = rep.compare(y, ref, f'{kind}({opts}) graph {g}: [{lab}] against [dense]', it)
    if p:
      return p
  return dict(problems=[], facts=facts)


# ------------------------------------------------------------- conversions
def pairs_of_sparse(dst, src, b, pad):
  out = []
  for k in range(dst.shape[-1]):
    i, j = dst.a[(*b, k)], src.a[(*b, k)]
    if i < pad:
      out.append((i, j))
  return sorted(out)


def dense_to_sparse(g, lead, pad, extra):
  s = _sess()
  n, edges = GRAPHS[g]
  bs = list(np.ndindex(*lead))
  sub = {b: list(range((i + 1) % 2 if len(edges) > 2 else 0, len(edges))) for i, b in enumerate(bs)} if lead else None
  lay = Layout(n, edges, 'dense', None, extra, lead, per_batch=sub)
  top = max(lay.pads)
  kw = dict(pad_idx=top) if pad else {}
  lay.pads = (top, top)
  if not pad:
    hi = max(edges[e][1] for sl in lay.slots.values() for e in sl.values() if e is not None)
    if any(e is None for sl in lay.slots.values() for e in sl.values()):
      return dict(problems=[], facts=0)
  A.reset_events()
  adj = lay.index(1)
  adj = A.Arr(adj.a, adj.dtype, False, False)
  dst, src = s.get('e3x.ops.dense_to_sparse_indices')(adj, **kw)
  for b in (bs or [()]):
    want = sorted(edges[e] for e in lay.slots[b].values() if e is not None)
    got = pairs_of_sparse(dst, src, b, top)
    if got != want:
      return [f'dense_to_sparse_indices(pad_idx={kw.get("pad_idx")}) of graph {g} batch {list(b)} lists the pairs {got} instead of {want}']
    for k in range(dst.shape[-1]):
      i, j = dst.a[(*b, k)], src.a[(*b, k)]
      if (i < top) != (j < top):
        return [f'dense_to_sparse_indices of graph {g}: half padded pair {(i, j)}']
  return dict(problems=[], facts=dst.size)


def sparse_to_dense(g, lead, pad, extra, perm):
  s = _sess()
  n, edges = GRAPHS[g]
  order = list(range(len(edges)))
  if perm:
    order = order[1:][::-1] + order[:1]
  bs = list(np.ndindex(*lead))
  sub = {b: sorted(order)[(i + 1) % 2 if len(edges) > 2 else 0:][::-1 if perm else 1] for i, b in enumerate(bs)} if lead else None
  lay = Layout(n, edges, 'sparse', order, extra, lead, per_batch=sub)
  if not pad and (extra or max(e[0] for e in edges) != n - 1 or (lead and len(set(map(len, sub.values()))) > 1)):
    return dict(problems=[], facts=0)
  if not pad and max(edges[e][0] for sl in lay.slots.values() for e in sl.values() if e is not None) != n - 1:
    return dict(problems=[], facts=0)
  if not pad and graphs.bipartite(g):
    return dict(problems=[], facts=0)
  top = max(lay.pads)
  lay.pads = (top, top)
  kw = dict(pad_idx=top) if pad else {}
  def un(x):
    return A.Arr(x.a, x.dtype, False, False)
  adj = s.get('e3x.ops.sparse_to_dense_indices')(un(lay.index(0)), un(lay.index(1)), **kw)
  for b in (bs or [()]):
    want = sorted(edges[e] for e in lay.slots[b].values() if e is not None)
    got = sorted((i, adj.a[(*b, i, k)]) for i in range(adj.shape[-2]) for k in range(adj.shape[-1]) if adj.a[(*b, i, k)] < top)
    if got != want:
      return [f'sparse_to_dense_indices(pad_idx={kw.get("pad_idx")}) of graph {g} batch {list(b)} lists the pairs {got} instead of {want}']
    if adj.shape[-2] != top:
      return [f'sparse_to_dense_indices(pad_idx={kw.get("pad_idx")}) has {adj.shape[-2]} rows for {top} nodes']
  return dict(problems=[], facts=adj.size)


def pairwise(n, mask):
  s = _sess()
  adj = s.get('e3x.ops.dense_pairwise_indices')(n, mask_self=mask)
  dst, src = s.get('e3x.ops.sparse_pairwise_indices')(n, mask_self=mask)
  want = sorted((i, j) for i in range(n) for j in range(n) if not mask or i != j)
  if tuple(adj.shape) != (n, n - 1 if mask else n):
    return [f'dense_pairwise_indices({n}, {mask}) has shape {adj.shape}']
  got = sorted((i, adj.a[i, k]) for i in range(n) for k in range(adj.shape[1]))
  if got != want:
    return [f'dense_pairwise_indices({n}, mask_self={mask}) lists {got} instead of {want}']
  got = sorted(zip(dst.a.tolist(), src.a.tolist()))
  if got != want:
    return [f'sparse_pairwise_indices({n}, mask_self={mask}) lists {got} instead of {want}']
  return dict(problems=[], facts=2 * len(want))


MP = [dict(), dict(weights=True), dict(max_degree=2), dict(include_pseudotensors=False), dict(use_fused_tensor=True, max_degree=1)]
AT = [dict(), dict(num_heads=2), dict(cutoff=True), dict(num_heads=2, cutoff=True, qkv_features=4, out_features=3),
      dict(use_relative_positional_encoding_qk=False), dict(use_relative_positional_encoding_v=False),
      dict(use_relative_positional_encoding_qk=False, use_relative_positional_encoding_v=False, nobasis=True),
      dict(max_degree=0, cutoff=True), dict(include_pseudotensors=False)]


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  R = 'same-result'
  leads = [(), (2,)] + [(2, 2)]
  for g in GRAPHS:
    for lead in leads:
      for shape in ((), (2,), (1, 2, 2)):
        if lead == (2, 2) and shape == (1, 2, 2) and not th:
          continue
        for w in ('src', 'dst'):
          obs.append(Ob(f'gather_{w} {g} lead={lead} data={shape}', gather, (w, g, lead, shape), R))
        for m in ('sum', 'min', 'max'):
          for kd in (False, True):
            for st in (False, True):
              obs.append(Ob(f'indexed_{m} {g} lead={lead} data={shape} keepdims={kd} sorted={st}', reduction, (m, g, lead, shape, kd, st), R))
        for st in (False, True):
          obs.append(Ob(f'indexed_softmax {g} lead={lead} data={shape} sorted={st}', reduction, ('softmax', g, lead, shape, False, st), R, cost=2))
        obs.append(Ob(f'indexed_softmax mask {g} lead={lead} data={shape}', softmax_mask, (g, lead, shape), R, cost=2))
  for g in GRAPHS if th else ('unequal', 'isolated', 'wide', 'multi'):
    for lead in ((), (2,)):
      for m in ('sum', 'min', 'max', 'softmax', 'masked softmax'):
        for kd in (False, True) if 'softmax' not in m else (False,):
          for dt in ('float32', 'int32') if 'softmax' not in m else ('float32',):
            obs.append(Ob(f'indexed_{m} {g} lead={lead} {dt} keepdims={kd} magnitudes', magnitudes, (m, g, lead, kd, dt), R, cost=2))
  for g in (GRAPHS if th else ('unequal', 'isolated', 'self', 'multi', 'wide', 'tall')):
    for o in MP:
      for P, L in ((1, 1), (2, 1)) + (((2, 2),) if th else ()):
        obs.append(Ob(f'MessagePass {g} P={P} L={L} {o}', layer, ('MessagePass', g, (), P, L, 1, 1, o), R, cost=20))
    for o in AT:
      if not graphs.bipartite(g):
        obs.append(Ob(f'SelfAttention {g} {o}', layer, ('SelfAttention', g, (), 1, 1, 2, 1, o), R, cost=40))
      obs.append(Ob(f'MultiHeadAttention {g} {o}', layer, ('MultiHeadAttention', g, (), 1, 1, 2, 1, o), R, cost=40))
  for o in (dict(), dict(weights=True)):
    obs.append(Ob(f'MessagePass batch {o}', layer, ('MessagePass', 'unequal', (2,), 1, 1, 1, 1, o), R, cost=30))
  for o in (dict(), dict(cutoff=True, num_heads=2)):
    obs.append(Ob(f'SelfAttention batch {o}', layer, ('SelfAttention', 'isolated', (2,), 1, 1, 2, 1, o), R, cost=60))
  R = 'same-pairs'
  for g in GRAPHS:
    for lead in leads:
      for pad in (False, True):
        for extra in (0, 1, 3):
          obs.append(Ob(f'dense_to_sparse_indices {g} lead={lead} pad={pad} extra={extra}', dense_to_sparse, (g, lead, pad, extra), R))
          for perm in (False, True):
            obs.append(Ob(f'sparse_to_dense_indices {g} lead={lead} pad={pad} extra={extra} permuted={perm}', sparse_to_dense, (g, lead, pad, extra, perm), R))
  for n in sorted(set(range(1, 8)) | set(run.mined_ints(2, 12, files=('indexed.py',))) | (set(range(8, 17)) if th else set())):
    for mask in (False, True):
      obs.append(Ob(f'pairwise indices {n} mask_self={mask}', pairwise, (n, mask), R))
  return obs
