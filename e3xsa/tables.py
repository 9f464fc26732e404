"""Table generators over uninterpreted coefficients and a modelled file system.

The symbolic leaf functions (Clebsch-Gordan coefficient, spherical harmonics polynomial,
rotated polynomial, polynomial product, conversion matrices) are replaced by labelled
values, so that a table entry names the coefficient it holds.
"""

import numpy as np

from . import arr as A
from . import poly
from . import rep
from . import run
from .errors import AnchorMissing, ModelError

KINDS = {
    'clebsch_gordan': '_clebsch_gordan_lut',
    'spherical_harmonics': '_spherical_harmonics_lut',
    'wigner_d': '_wigner_d_lut',
    'tensor_conversion': '_tensor_conversion_lut',
}


class FakePoly:
  """A polynomial with uninterpreted coefficients."""
  __bindable__ = False

  def __init__(self, ident, powers):
    self.ident = ident
    self._t = [(p, poly.var('coef', (*ident, p), name=f'{ident}{p}')) for p in powers]

  def terms(self, order=None):
    return list(self._t)

  def monoms(self, order=None):
    return [p for p, _ in self._t]

  def coeffs(self, order=None):
    return [c for _, c in self._t]

  def as_dict(self, native=False):
    return dict(self._t)


def powers(k, l):
  # deliberately not the library's enumeration order
  return list(reversed(rep.monomials(k, l)))


def labelled(tag, shape, l):
  a = np.empty(shape, dtype=object)
  for ix in np.ndindex(*shape):
    a[ix] = poly.var('coef', (tag, l, ix), name=f'{tag}{l}{list(ix)}')
  return A.Arr(A._obj(a), A.F64, False, False, True)


class Tables:

  def __init__(self, kind):
    self.kind = kind
    s = rep.Session(opaque_cg=False)
    self.s = s
    run.WORLDS.append(s.w)
    self.w = s.w
    self.fs = s.w.fs
    h = s.w.interp.call_hooks
    self.leaf_calls = 0
    memo = {}

    def leaf(key, mk):
      if key not in memo:
        memo[key] = mk()
      self.leaf_calls += 1
      return memo[key]

    def cg(f, a, k):
      v = _bind(f, a, k)
      return leaf(('cg', *v), lambda: poly.var('coef', ('cg', *map(int, v)), name=f'cg{v}'))

    def sh(f, a, k):
      l, m = (int(x) for x in _bind(f, a, k))
      return leaf(('sh', l, m), lambda: FakePoly(('sh', l, m), powers(3, l)))

    def rot(f, a, k):
      p, = _bind(f, a, k)
      q = FakePoly(('rot', *p.ident[1:]), [])
      return q

    def dot(f, a, k):
      p, q = _bind(f, a, k)
      if p.ident[0] != 'sh' or q.ident[0] != 'rot' or p.ident[1] != q.ident[1]:
        raise ModelError(f'inner product of {p.ident} and {q.ident}')
      l = p.ident[1]
      return leaf(('wd', l, p.ident[2], q.ident[2]), lambda: FakePoly(('wd', l, p.ident[2], q.ident[2]), powers(9, l)))

    def tcm(f, a, k):
      l, = (int(x) for x in _bind(f, a, k))
      nc, ns = (l + 1) * (l + 2) // 2, 2 * l + 1
      self.leaf_calls += 1
      return labelled('s2t', (ns, nc), l), labelled('t2s', (nc, ns), l)

    sym = 'e3x.so3._symbolic'
    h[(sym, '_clebsch_gordan')] = cg
    h[(sym, '_spherical_harmonics')] = sh
    h[(sym, '_rotate_xyz_polynomial')] = rot
    h[(sym, '_polynomial_dot_product')] = dot
    h[('e3x.so3._tensor_conversion_lut', '_tensor_conversion_matrices')] = tcm
    mod = 'e3x.so3.' + KINDS[kind]
    name = f'_generate_{kind}_lookup_table'
    try:
      self.gen = s.w.get(f'{mod}.{name}')
    except (AttributeError, KeyError, ImportError) as e:
      raise AnchorMissing(f'{mod}.{name} not found') from e
    self.setter = s.w.get(f'e3x.Config.set_{kind}_cache')
    self.resource = KINDS[kind] + '.npz'

  def request(self, L, procs=1):
    r = self.gen(L, procs)
    if not isinstance(r, dict):
      raise ModelError('the table generator returns no table')
    return {k: [A.asarr(x, np_=True) for x in v] if isinstance(v, list) else v for k, v in r.items()}

  def cache(self, path):
    self.setter(path)


def _bind(f, a, k):
  names = f.param_names()
  v = list(a)
  for n in names[len(a):]:
    if n in k:
      v.append(k[n])
  return [x.item() if isinstance(x, (np.generic, A.Arr)) else x for x in v]


def contents(kind, L):
  """The file a run with an empty cache writes for maximum degree L."""
  t = Tables(kind)
  t.cache('/ref/table.npz')
  t.request(L)
  return t.fs.files.get('/ref/table.npz')


def freeze(v):
  if isinstance(v, A.Arr):
    return v.a.copy(), v.dtype.name
  return v


def difference(kind, got, want, L):
  """First difference between two tables (or None)."""
  if set(got) != set(want):
    return f'keys {sorted(got)} instead of {sorted(want)}'
  for k in want:
    g, w = got[k], want[k]
    if k == 'max_degree':
      if int(g) != L:
        return f'max_degree is {int(g)} instead of {L}'
      continue
    gs, ws = (g, w) if isinstance(w, list) else ([g], [w])
    if len(gs) != len(ws):
      return f'{k} has {len(gs)} entries instead of {len(ws)}'
    for i, (x, y) in enumerate(zip(gs, ws)):
      n = f'{k}[{i}]' if isinstance(w, list) else k
      x, y = A.asarr(x, np_=True), A.asarr(y, np_=True)
      if x.shape != y.shape:
        return f'{n} has shape {x.shape} instead of {y.shape}'
      if x.dtype.name != y.dtype.name:
        return f'{n} has dtype {x.dtype.name} instead of {y.dtype.name}'
      for ix in np.ndindex(*x.shape):
        u, v = x.a[ix], y.a[ix]
        if u is v:
          continue
        if poly.akey(u) != poly.akey(v):
          return f'{n}{list(ix)} is {u} instead of {v}'
  return None


def size(t):
  n = 0
  for v in t.values():
    for x in (v if isinstance(v, list) else [v]):
      n += getattr(x, 'size', 1)
  return n
