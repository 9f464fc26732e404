"""C17: component order and normalisation conventions agree everywhere.

The table generators are replaced by labelled coefficients: an entry names the degree,
order and monomial it belongs to.  Each public function is interpreted and every entry of
its result must be the term the one convention demands: position l^2+k of degree l holds
order m_k of the requested component order (so blocks are laid out alike and a larger
maximum degree extends a smaller one), harmonics are the documented multiple of the
coefficient sum over monomials, Clebsch-Gordan arrays hold (l1,m1,l2,m2,l3,m3) along the
three axes, Wigner-D matrices permute rows and columns alike and are zero between degrees,
conversions multiply respectively divide by the same constant.
"""

import itertools
import math

import numpy as np

from .. import arr as A
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..run import Obligation as Ob


def norm_of(name, l):
  return {'racah': 1.0, 'schmidt': 1.0, '4pi': math.sqrt(2 * l + 1),
          'orthonormal': math.sqrt((2 * l + 1) / (4 * math.pi))}[name]


def session():
  s = rep.Session(fold=False)
  s.hook_tables()
  run.WORLDS.append(s.w)
  return s


def reals(name, shape):
  a = np.empty(shape, dtype=object)
  for ix in np.ndindex(*shape):
    a[ix] = poly.var('in', (name, ix), deps=frozenset([name]), name=f'{name}{list(ix)}')
  return A.Arr(A._obj(a), A.F32, False, True)


def monomial(xs, p):
  t = 1
  for x, k in zip(xs, p):
    for _ in range(k):
      t = x * t
  return t


def total(terms):
  t = 0
  for v in terms:
    t = v + t
  return t


def atom(*key):
  return rep._opaque(*key)


def harmonics(fn, lead, L, cart, norm, unit):
  s = session()
  f = s.get(f'e3x.so3.{fn}')
  r = reals('r', (*lead, 3))
  kw = dict(cartesian_order=cart)
  if fn == 'spherical_harmonics':
    kw.update(r_is_normalized=unit, normalization=norm)
  y = A.asarr(f(r, max_degree=L, **kw))
  if fn == 'spherical_harmonics' and not unit:
    r = A.asarr(s.get('e3x.ops.normalize')(r, axis=-1))
  want = np.empty((*lead, (L + 1) ** 2), dtype=object)
  for b in np.ndindex(*lead):
    xs = [r.a[(*b, k)] for k in range(3)]
    for l in range(L + 1):
      c = norm_of(norm, l)
      mons = {p: monomial(xs, p) for p in rep.monomials(3, l)}
      for k, m in enumerate(rep.orders(l, cart)):
        want[(*b, l * l + k)] = total(atom('sh', p, l, m) * q * c for p, q in mons.items())
  what = f'{fn}(max_degree={L}, cartesian_order={cart}, normalization={norm}, r_is_normalized={unit}, leading axes {lead})'
  return dict(problems=rep.compare(y, want, what), facts=want.size)


def couplings(L1, L2, L3, cart):
  s = session()
  g = A.asarr(s.get('e3x.so3.clebsch_gordan')(L1, L2, L3, cartesian_order=cart))
  big = rep.cg_table(max(L1, L2, L3)).a
  ax = [[l * l + l + m for l in range(L + 1) for m in rep.orders(l, cart)] for L in (L1, L2, L3)]
  want = big[np.ix_(*ax)]
  what = f'clebsch_gordan({L1}, {L2}, {L3}, cartesian_order={cart})'
  return dict(problems=rep.compare(g, want, what), facts=want.size)


def degree_couplings(L, cart):
  s = session()
  f = s.get('e3x.so3.clebsch_gordan_for_degrees')
  n = 0
  out = []
  for l1, l2, l3 in itertools.product(range(L + 1), repeat=3):
    g = A.asarr(f(l1, l2, l3, cartesian_order=cart))
    big = rep.cg_table(max(l1, l2, l3)).a
    ax = [[l * l + l + m for m in rep.orders(l, cart)] for l in (l1, l2, l3)]
    want = big[np.ix_(*ax)]
    out += rep.compare(g, want, f'clebsch_gordan_for_degrees({l1}, {l2}, {l3}, cartesian_order={cart})')
    n += want.size
  return dict(problems=out, facts=n)


def wigner(lead, L, cart):
  s = session()
  R = reals('R', (*lead, 3, 3))
  D = A.asarr(s.get('e3x.so3.wigner_d')(R, max_degree=L, cartesian_order=cart))
  n = (L + 1) ** 2
  want = A._full((*lead, n, n), 0)
  for b in np.ndindex(*lead):
    xs = [R.a[(*b, i, j)] for i in range(3) for j in range(3)]
    for l in range(L + 1):
      mons = {p: monomial(xs, p) for p in rep.monomials(9, l)}
      ms = rep.orders(l, cart)
      for i, j in itertools.product(range(2 * l + 1), repeat=2):
        want[(*b, l * l + i, l * l + j)] = total(atom('wd', p, l, ms[i], ms[j]) * q for p, q in mons.items())
  what = f'wigner_d(max_degree={L}, cartesian_order={cart}, leading axes {lead})'
  return dict(problems=rep.compare(D, want, what), facts=want.size)


def sparse_wigner(L, cart):
  """Higher degrees: all table rows but two per degree are zero."""
  keep = {p for l in range(L + 1) for p in (list(rep.monomials(9, l))[0], list(rep.monomials(9, l))[-1])}
  s = rep.Session(fold=False)
  s.hook_tables(lambda *k: rep._opaque('wd', *k) if k[0] in keep else 0)
  run.WORLDS.append(s.w)
  R = reals('R', (3, 3))
  D = A.asarr(s.get('e3x.so3.wigner_d')(R, max_degree=L, cartesian_order=cart))
  want = A._full(((L + 1) ** 2,) * 2, 0)
  xs = [R.a[i, j] for i in range(3) for j in range(3)]
  for l in range(L + 1):
    mons = {p: monomial(xs, p) for p in rep.monomials(9, l) if p in keep}
    ms = rep.orders(l, cart)
    for i, j in itertools.product(range(2 * l + 1), repeat=2):
      want[l * l + i, l * l + j] = total(atom('wd', p, l, ms[i], ms[j]) * q for p, q in mons.items())
  return dict(problems=rep.compare(D, want, f'wigner_d(max_degree={L}, cartesian_order={cart})'), facts=want.size)


def components(l):
  return list(itertools.combinations_with_replacement(range(3), l))


def to_tensor(lead, l, cart, norm):
  s = session()
  x = reals('x', (*lead, 2 * l + 1))
  T = A.asarr(s.get('e3x.so3.irreps_to_tensor')(x, degree=l, cartesian_order=cart, normalization=norm))
  shape = (1,) if l == 0 else (3,) * l
  pos = {c: i for i, c in enumerate(components(l))}
  want = np.empty((*lead, *shape), dtype=object)
  k = 1.0 / norm_of(norm, l)
  for b in np.ndindex(*lead):
    col = {}
    for c, i in pos.items():
      col[c] = total(x.a[(*b, q)] * atom('tc', 's2t', l, i, m) * k for q, m in enumerate(rep.orders(l, cart)))
    for ix in np.ndindex(*shape):
      want[(*b, *ix)] = col[tuple(sorted(ix)) if l else ()]
  what = f'irreps_to_tensor(degree={l}, cartesian_order={cart}, normalization={norm}, leading axes {lead})'
  return dict(problems=rep.compare(T, want, what), facts=want.size)


def from_tensor(lead, l, cart, norm):
  """The input is a symmetric tensor (components named by their sorted index)."""
  s = session()
  shape = (1,) if l == 0 else (3,) * l
  a = np.empty((*lead, *shape), dtype=object)
  name = lambda b, ix: poly.var('in', ('T', b, tuple(sorted(ix)) if l else ()), deps=frozenset(['T']), name=f'T{list(b)}{list(sorted(ix))}')
  for b in np.ndindex(*lead):
    for ix in np.ndindex(*shape):
      a[(*b, *ix)] = name(b, ix)
  y = A.asarr(s.get('e3x.so3.tensor_to_irreps')(A.Arr(A._obj(a), A.F32, False, True), degree=l, cartesian_order=cart, normalization=norm))
  want = np.empty((*lead, 2 * l + 1), dtype=object)
  k = norm_of(norm, l)
  for b in np.ndindex(*lead):
    for q, m in enumerate(rep.orders(l, cart)):
      want[(*b, q)] = total(name(b, c) * atom('tc', 't2s', l, i, m) * k for i, c in enumerate(components(l)))
  what = f'tensor_to_irreps(degree={l}, cartesian_order={cart}, normalization={norm}, leading axes {lead})'
  return dict(problems=rep.compare(y, want, what), facts=want.size)


def constants(top):
  s = session()
  f = s.get('e3x.so3._normalization.normalization_constant')
  out = []
  for n in ('racah', 'schmidt', '4pi', 'orthonormal'):
    for l in range(top):
      g = A.asarr(f(n, l)).a.item()
      if not isinstance(g, (int, float)) or abs(g - norm_of(n, l)) > 1e-12 * (1 + l):
        out.append(f'normalization_constant({n}, {l}) is {g} instead of {norm_of(n, l)}')
        break
  return dict(problems=out, facts=4 * top)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  lead = [(), (2,), (2, 3)]
  norms = ['racah', 'schmidt', '4pi', 'orthonormal']
  top = 6 if th else 4
  mined = [m for m in run.mined_ints(2, 12, files=('so3/irreps.py', 'so3/_common.py', 'so3/_normalization.py')) if m <= 10]
  degs = sorted(set(range(top + 1)) | set(mined[:5] + mined[-3:]))
  for cart in (True, False):
    for L in degs:
      for i, nm in enumerate(norms):
        for unit in (True, False):
          if L > 4 and (i + unit) % 2 and not th:
            continue
          b = lead[(L + i + unit) % 3] if L <= 3 else ()
          obs.append(Ob(f'spherical_harmonics {L} {cart} {nm} {unit} {b}', harmonics, ('spherical_harmonics', b, L, cart, nm, unit), 'harmonics', cost=1 + L ** 3 / 4))
      obs.append(Ob(f'solid_harmonics {L} {cart}', harmonics, ('solid_harmonics', lead[L % 3] if L < 4 else (), L, cart, 'racah', True), 'harmonics', cost=1 + L ** 3 / 4))
    trips = list(itertools.product(range(4 if th else 3), repeat=3)) + [(4, 1, 2), (1, 4, 3), (3, 2, 5), (0, 5, 5), (5, 3, 1)]
    for t in trips:
      obs.append(Ob(f'clebsch_gordan {t} {cart}', couplings, (*t, cart), 'couplings', cost=1 + max(t)))
    obs.append(Ob(f'clebsch_gordan_for_degrees {cart}', degree_couplings, (4 if th else 3, cart), 'couplings', cost=8))
    for L in range(5 if th else 4):
      for b in lead if L < 2 else lead[:2] if L < 3 else lead[:1]:
        obs.append(Ob(f'wigner_d {L} {cart} {b}', wigner, (b, L, cart), 'rotation', cost=1 + 6 ** L))
    for L in (4, 5, 6) + ((7,) if th else ()):
      obs.append(Ob(f'wigner_d {L} {cart} sparse', sparse_wigner, (L, cart), 'rotation', cost=1 + 4 ** L))
    for l in range(7):
      for i, nm in enumerate(norms):
        if l > 4 and not th and (i + l) % 4:
          continue
        b = lead[(l + i) % 3] if l < 4 else ()
        obs.append(Ob(f'irreps_to_tensor {l} {cart} {nm} {b}', to_tensor, (b, l, cart, nm), 'conversion', cost=1 + 3 ** l / 20))
        obs.append(Ob(f'tensor_to_irreps {l} {cart} {nm} {b}', from_tensor, (b, l, cart, nm), 'conversion', cost=1 + 3 ** l / 20))
  obs.append(Ob('normalization_constant', constants, (40 if th else 13,), 'constants'))
  return obs
