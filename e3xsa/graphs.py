"""Small neighbourhood graphs in both index formats, with labelled edge data."""

import numpy as np

from . import arr as A
from . import poly
from . import rep

class Edges(list):
  """Pairs of a bipartite graph with `ns` source nodes."""

  def __init__(self, ns, pairs):
    super().__init__(pairs)
    self.ns = ns


# (number of (destination) nodes, list of (dst, src) pairs)
GRAPHS = {
    'unequal': (3, [(0, 1), (0, 2), (1, 0), (2, 0)]),
    'isolated': (3, [(0, 1), (0, 2), (2, 1)]),
    'self': (3, [(0, 0), (0, 1), (1, 1), (2, 0), (2, 2), (2, 1)]),
    'full': (3, [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)]),
    'one': (2, [(1, 0)]),
    'gap': (4, [(0, 3), (3, 0), (3, 1), (1, 3)]),
    'multi': (3, [(0, 1), (0, 1), (1, 2), (2, 1)]),
    'wide': (2, Edges(4, [(0, 3), (0, 1), (1, 2), (1, 0), (1, 3)])),
    'tall': (4, Edges(2, [(0, 1), (1, 0), (1, 1), (3, 0), (2, 1)])),
}


def sources(g):
  n, edges = GRAPHS[g]
  return getattr(edges, 'ns', n)


def bipartite(g):
  return hasattr(GRAPHS[g][1], 'ns')


def edge_data(name, edges, shape, lead=(), dtype=A.F32):
  """Per edge (and batch entry) labelled values: dict (b, e) -> object array."""
  out = {}
  for b in np.ndindex(*lead):
    for e in range(len(edges)):
      a = np.empty(shape, dtype=object)
      for ix in np.ndindex(*shape):
        a[ix] = poly.var('edge', (name, b, e, ix), deps=frozenset([(name, b, e)]), name=f'{name}{list(b)}<{e}>{list(ix)}')
      out[b, e] = a
  return out


def pad_value(name, b, slot, shape):
  a = np.empty(shape, dtype=object)
  for ix in np.ndindex(*shape):
    a[ix] = poly.var('edge', (name, b, 'pad', slot, ix), deps=frozenset([(name, b, 'pad', slot)]), name=f'{name}{list(b)}<pad{slot}>{list(ix)}')
  return a


class Layout:
  """One representation of a graph: slots -> edge id or None (padding)."""

  def __init__(self, n, edges, fmt, order=None, extra=0, lead=(), pad=None, per_batch=None):
    self.n, self.edges, self.fmt, self.lead = n, edges, fmt, lead
    ns = getattr(edges, 'ns', n)
    self.pads = (n, ns) if pad is None else (pad, pad)
    self.pad = max(self.pads)
    order = list(range(len(edges))) if order is None else order
    batch = {b: (per_batch[b] if per_batch else order) for b in np.ndindex(*lead)} if lead else {(): order}
    if fmt == 'dense':
      rows = {b: [[e for e in o if edges[e][0] == i] for i in range(n)] for b, o in batch.items()}
      m = max(len(r) for rr in rows.values() for r in rr) + extra
      self.shape = (n, m)
      self.slots = {b: {(i, k): (rr[i][k] if k < len(rr[i]) else None) for i in range(n) for k in range(m)}
                    for b, rr in rows.items()}
    else:
      m = max(len(o) for o in batch.values()) + extra
      self.shape = (m,)
      self.slots = {b: {(k,): (o[k] if k < len(o) else None) for k in range(m)} for b, o in batch.items()}

  def index(self, which):
    a = np.zeros((*self.lead, *self.shape), dtype=object)
    for b, sl in self.slots.items():
      for s, e in sl.items():
        a[(*b, *s)] = self.pads[which] if e is None else self.edges[e][which]
    return rep.ints(a)

  def kwargs(self, where=None, src=True, num_segments=False, is_sorted=None):
    if self.fmt == 'dense':
      kw = dict(adj_idx=self.index(1))
      if where:
        a = np.zeros((*self.lead, *self.shape), dtype=object)
        for b, sl in self.slots.items():
          for s, e in sl.items():
            a[(*b, *s)] = e is not None
        kw['where'] = rep.bools(a)
      return kw
    kw = dict(dst_idx=self.index(0))
    if src:
      kw['src_idx'] = self.index(1)
    if num_segments:
      kw['num_segments'] = self.n
    if is_sorted is not None:
      kw['indices_are_sorted'] = is_sorted
    return kw

  def data(self, name, d, shape, dtype=A.F32, typed=None):
    a = np.empty((*self.lead, *self.shape, *shape), dtype=object)
    for b, sl in self.slots.items():
      for s, e in sl.items():
        v = d[b, e] if e is not None else pad_value(name, b, s, shape)
        a[(*b, *s)] = v if shape else v[()]
    return A.Arr(A._obj(a), dtype, False, True)

  def by_edge(self, arr):
    """Result per (batch, edge): dict -> object array."""
    out = {}
    for b, sl in self.slots.items():
      for s, e in sl.items():
        if e is not None:
          out[b, e] = arr.a[(*b, *s)]
    return out
