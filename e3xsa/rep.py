"""Representation-typed abstract inputs and output judgements (O(3) typing)."""

import itertools

import numpy as np

from . import arr as A
from . import interp as I
from . import lib
from . import poly
from .errors import Unsupported


def orders(l, cartesian=True):
  """Orders m of a degree in storage order."""
  if not cartesian:
    return list(range(-l, l + 1))
  out = []
  for m in range(l, 0, -1):
    out += [m, -m]
  return out + [0]


def parity(P, p, l):
  if P == 1:
    return -1 if l % 2 else 1
  return 1 if p == 0 else -1


def features(name, lead, P, L, F, cartesian=True, dtype=A.F32, dep=None, lead_labels=None):
  """Array (*lead, P, (L+1)^2, F) of typed feature components.

  Every element depends on the label (name, lead index).
  """
  a = np.empty((*lead, P, (L + 1) ** 2, F), dtype=object)
  for b in np.ndindex(*lead):
    for p in range(P):
      for l in range(L + 1):
        for k, m in enumerate(orders(l, cartesian)):
          for f in range(F):
            a[(*b, p, l * l + k, f)] = poly.var(
                'in', (name, b, p, l, f), ((l, m),), parity(P, p, l),
                deps=frozenset([(name, b)]), name=f'{name}{list(b)}[p{p} l{l} m{m} f{f}]')
  return A.Arr(A._obj(a), dtype, False, True)


def scalars(name, shape, dtype=A.F32, parity_=1):
  a = np.empty(shape, dtype=object)
  for b in np.ndindex(*shape):
    a[b] = poly.var('in', (name, b), (), parity_, deps=frozenset([(name, b)]), name=f'{name}{list(b)}')
  return A.Arr(A._obj(a), dtype, False, True)


def ints(values, traced=True, dtype=A.I32):
  v = np.asarray(values)
  a = np.empty(v.shape, dtype=object)
  for i in np.ndindex(*v.shape):
    a[i] = int(v[i])
  return A.Arr(A._obj(a), dtype, False, traced)


def bools(values, traced=True):
  v = np.asarray(values)
  a = np.empty(v.shape, dtype=object)
  for i in np.ndindex(*v.shape):
    a[i] = bool(v[i])
  return A.Arr(A._obj(a), A.BOOL, False, traced)


def vectors(name, lead, dtype=A.F32):
  """(*lead, 3) Cartesian vectors typed as degree-1 odd components (x,y,z)."""
  a = np.empty((*lead, 3), dtype=object)
  for b in np.ndindex(*lead):
    for k, m in enumerate((1, -1, 0)):
      a[(*b, k)] = poly.var('in', (name, b), ((1, m),), -1, deps=frozenset([(name, b)]),
                            name=f'{name}{list(b)}.{"xyz"[k]}')
  return A.Arr(A._obj(a), dtype, False, True)


# ----------------------------------------------------------- opaque CG tables
def cg_table(max_degree):
  n = (max_degree + 1) ** 2
  a = A._full((n, n, n), 0)
  for l1, l2 in itertools.product(range(max_degree + 1), repeat=2):
    for l3 in range(abs(l1 - l2), min(l1 + l2, max_degree) + 1):
      for m1 in range(-l1, l1 + 1):
        for m2 in range(-l2, l2 + 1):
          for m3 in range(-l3, l3 + 1):
            if l1 == l2 == l3 == 0:
              v = 1.0
            else:
              v = poly.var('cg', (l1, l2, l3), ((l1, m1), (l2, m2), (l3, m3)), 1,
                           deps=frozenset(), name=f'cg[{l1},{m1};{l2},{m2};{l3},{m3}]')
            a[l1 * l1 + l1 + m1, l2 * l2 + l2 + m2, l3 * l3 + l3 + m3] = v
  return A.Arr(a, A.F64, False, False, True)


def monomials(k, l):
  """Exponent tuples of k variables with total degree l."""
  if k == 1:
    return [(l,)]
  return [(i, *r) for i in range(l, -1, -1) for r in monomials(k - 1, l - i)]


def sh_table(L, mk):
  """Spherical harmonics table: mk(powers, l, m) gives the coefficients."""
  pw = [p for l in range(L + 1) for p in monomials(3, l)]
  cm = A._full((len(pw), (L + 1) ** 2), 0.0)
  ls = np.empty((len(pw), 3), dtype=object)
  for i, p in enumerate(pw):
    l = sum(p)
    for k in range(3):
      ls[i, k] = p[k]
    for m in range(-l, l + 1):
      cm[i, l * l + l + m] = mk(p, l, m)
  return dict(max_degree=L, ls=A.Arr(A._obj(ls), A.I64, False, False, True), cm=A.Arr(cm, A.F64, False, False, True))


def wd_table(L, mk):
  """Wigner-D table: mk(powers, l, i, j) gives the coefficients."""
  pw = [p for l in range(L + 1) for p in monomials(9, l)]
  n = sum((2 * l + 1) ** 2 for l in range(L + 1))
  cm = A._full((len(pw), n), 0.0)
  ls = np.empty((len(pw), 9), dtype=object)
  off = [sum((2 * k + 1) ** 2 for k in range(l)) for l in range(L + 1)]
  for r, p in enumerate(pw):
    l = sum(p)
    for k in range(9):
      ls[r, k] = p[k]
    for i in range(2 * l + 1):
      for j in range(2 * l + 1):
        cm[r, off[l] + i * (2 * l + 1) + j] = mk(p, l, i - l, j - l)
  return dict(max_degree=L, ls=A.Arr(A._obj(ls), A.I64, False, False, True), cm=A.Arr(cm, A.F64, False, False, True))


def tc_table(L, mk):
  """Tensor conversion table: mk(which, l, car, m)."""
  s2t, t2s = [], []
  for l in range(L + 1):
    nc, ns = (l + 1) * (l + 2) // 2, 2 * l + 1
    a = A._full((ns, nc), 0.0)
    b = A._full((nc, ns), 0.0)
    for c in range(nc):
      for k in range(ns):
        a[k, c] = mk('s2t', l, c, k - l)
        b[c, k] = mk('t2s', l, c, k - l)
    s2t.append(A.Arr(a, A.F64, False, False, True))
    t2s.append(A.Arr(b, A.F64, False, False, True))
  return dict(max_degree=L, s2t=s2t, t2s=t2s)


def _opaque(*key):
  return poly.var('tab', key, (), 1, deps=frozenset(), name='/'.join(map(str, key)))


class Session:
  """One world with the table generators replaced by opaque invariant tensors."""

  def __init__(self, fold=True, opaque_cg=True):
    poly.reset()
    A.reset_events()
    poly.FOLD[0] = fold
    poly.SELECT[0] = False
    lib._MODE[0] = 'poly'
    lib.PARAM_CALL_INIT[0] = False
    lib.FRESH_PARAMS[0] = True
    self.w = I.World()
    self.w.import_('e3x')
    self._cg = {}
    self.hooks_fired = set()
    if opaque_cg:
      self.install()

  def table_generators(self, suffix):
    """Functions imported by the package from the table module `suffix`."""
    out = set()
    for m in list(self.w.modules.values()):
      if not m.loaded or m.name.endswith(suffix):
        continue
      for v in m.env.vars.values():
        if isinstance(v, I.FuncV) and v.env.module is not None and v.env.module.name.endswith(suffix):
          out.add((v.env.module.name, v.__name__))
    return out

  def install(self):
    gens = self.table_generators('_clebsch_gordan_lut')

    def hook(f, args, kwargs):
      md = kwargs.get('max_degree', args[0] if args else None)
      if not isinstance(md, int):
        return NotImplemented
      self.hooks_fired.add('cg')
      # the real table may be larger than requested: never smaller
      t = self._cg.get(md)
      if t is None:
        t = self._cg[md] = cg_table(md)
      return {'max_degree': md, 'cg': t}

    for g in gens:
      self.w.interp.call_hooks[g] = hook

  def hook_tables(self, mk=None):
    """Replaces the harmonics, Wigner-D and conversion tables by labelled atoms."""
    for suffix, build, tag in (('_spherical_harmonics_lut', sh_table, 'sh'), ('_wigner_d_lut', wd_table, 'wd'),
                               ('_tensor_conversion_lut', tc_table, 'tc')):
      cache = {}

      def hook(f, args, kwargs, build=build, tag=tag, cache=cache):
        L = kwargs.get('max_degree', args[0] if args else None)
        if not isinstance(L, int) or L < 0:
          return NotImplemented
        self.hooks_fired.add(tag)
        if L not in cache:
          cache[L] = build(L, mk or (lambda *k: _opaque(tag, *k)))
        return cache[L]
      for g in self.table_generators(suffix):
        self.w.interp.call_hooks[g] = hook

  def get(self, name):
    return self.w.get(name)

  def module(self, name, **kw):
    A.events().params.clear()      # a new root scope
    return self.w.get(name)(**kw)


def judge(out, P, L, F, cartesian=True, where=''):
  """Judges that `out` (..., P, (L+1)^2, F) transforms as irreps.

  Returns a list of (message) strings; empty when every block is well typed.
  """
  probs = []
  if out.shape[-3:] != (P, (L + 1) ** 2, F):
    return [f'{where}: output shape {out.shape} instead of (..., {P}, {(L + 1) ** 2}, {F})']
  lead = out.shape[:-3]
  for b in np.ndindex(*lead):
    for p in range(P):
      for l in range(L + 1):
        for f in range(F):
          block = [out.a[(*b, p, l * l + k, f)] for k in range(2 * l + 1)]
          m = judge_block(block, l, parity(P, p, l), orders(l, cartesian))
          if m:
            probs.append(f'{where}: output block (parity channel {p} of {P}, degree {l}, feature {f}): {m}')
            break
  return probs


def judge_block(block, l, par, ms):
  ts = [poly.typ(v) for v in block]
  if all(t == ('zero',) for t in ts):
    return None
  for k, t in enumerate(ts):
    if t[0] == 'bad':
      return t[1]
  ids = [poly.tensor_id(v) for v in block]
  for k, t in enumerate(ts):
    if t[0] == 'zero':
      return f'component {k} is identically zero while others are not (not closed under rotation)'
    if l == 0:
      if t[0] != 'inv':
        return f'expected an invariant, got a component of type {t}'
      if t[1] != par:
        return f'scalar of parity {t[1]} stored where parity {par} is expected'
    else:
      if t[0] == 'inv':
        return f'component {k} (order {ms[k]}) is a constant or an invariant instead of a degree-{l} component'
      if t[0] == 'multi':
        return f'component {k} carries uncontracted indices {t[1]}'
      if t[1] != l:
        return f'component {k} transforms with degree {t[1]}, not {l}'
      if t[2] != ms[k]:
        return f'component {k} holds order {t[2]} but should hold order {ms[k]}'
      if t[3] != par:
        return f'component of parity {t[3]} stored where parity {par} is expected'
    if ids[k] != ids[0]:
      return f'components 0 and {k} are scaled differently (not the same tensor)'
  return None


def compare(got, want, what, it=None, index=None):
  """Compares an abstract array with the demanded terms; raises Unsupported if open.

  `want` is an object array or an Arr; entries None are not compared.
  """
  w = want.a if isinstance(want, A.Arr) else want
  if tuple(got.shape) != tuple(w.shape):
    return [f'{what}: shape {tuple(got.shape)} instead of {tuple(w.shape)}']
  it = it or poly.Interp()
  for ix in np.ndindex(*w.shape):
    if w[ix] is None:
      continue
    r = it.equiv(got.a[ix], w[ix])
    if r is False:
      return [f'{what}: element {list(ix)} is {str(got.a[ix])[:200]} but must be {str(w[ix])[:200]}']
    if r is None:
      raise Unsupported(f'{what}: element {list(ix)} could not be compared')
  return []
