"""C30: generated coupling, harmonics, rotation and conversion tables are right.

The table generators and the formulas they use are interpreted with the symbolic algebra
library modelled by an exact domain (polynomials over sums of rational multiples of square
roots and i; the complex coupling coefficient is a library contract).  No shipped table and
no cache is available, so every entry comes from the formulas.  Rule 'harmonics': each
column holds the coefficients of the real Racah-normalised solid harmonic.  Rule 'coupling':
each entry is the coupling coefficient of the real harmonics (zero where selection rules
demand it).  Rule 'rotation': the entries, taken at rotation matrices, express the rotated
harmonics in harmonics.  Rule 'conversion': the matrices map the harmonics of a vector to its
symmetric traceless tensor power and back.
"""

import itertools
import math

import numpy as np

from .. import arr as A
from .. import elem
from .. import exact
from .. import lib
from .. import rep
from .. import run
from ..errors import AnchorMissing, ModelError
from ..run import Obligation as Ob
from . import c29

KINDS = {'clebsch_gordan': '_clebsch_gordan_lut', 'spherical_harmonics': '_spherical_harmonics_lut',
         'wigner_d': '_wigner_d_lut', 'tensor_conversion': '_tensor_conversion_lut'}


def session():
  lib.EXACT[0] = True
  try:
    s = rep.Session(fold=False, opaque_cg=False)
  finally:
    lib.EXACT[0] = False
  run.WORLDS.append(s.w)
  s.w.fs.package.clear()
  return s


def get(s, path):
  try:
    return s.w.get(path)
  except (AttributeError, KeyError, ImportError) as e:
    raise AnchorMissing(f'{path} not found') from e


def generate(kind, L):
  s = session()
  t = get(s, f'e3x.so3.{KINDS[kind]}._generate_{kind}_lookup_table')(L)
  if not isinstance(t, dict):
    raise ModelError('the generator returns no table')
  return t


def number(v):
  if elem.is_abs(v):
    raise ModelError(f'a table entry is {v}')
  return complex(v)


def real(v, what):
  c = number(v)
  if abs(c.imag) > 1e-12:
    raise ModelError(f'{what} is the complex number {c}')
  return c.real


def near(a, b):
  return abs(a - b) <= 1e-10 * max(1.0, abs(b))


def finding(rule, msg):
  return [run.Finding(rule, msg, msg, None)]


# ----------------------------------------------------------------------------- harmonics
def harmonics(L):
  t = generate('spherical_harmonics', L)
  nc = (L + 1) * (L + 2) * (L + 3) // 6
  cm, ls = A.asarr(t['cm'], np_=True), A.asarr(t['ls'], np_=True)
  if cm.shape != (nc, (L + 1) ** 2) or ls.shape != (nc, 3):
    return dict(problems=finding('harmonics', f'max_degree={L}: tables of shape {cm.shape} and {ls.shape}'), facts=1)
  mons = [tuple(int(v) for v in r) for r in ls.a]
  if sorted(mons) != sorted((a, b, n - a - b) for n in range(L + 1) for a in range(n + 1) for b in range(n + 1 - a)):
    return dict(problems=finding('harmonics', f'max_degree={L}: the monomials are not those up to degree {L}'), facts=1)
  n = 0
  for l in range(L + 1):
    for m in range(-l, l + 1):
      ref = c29.harmonic(l, m)
      for i, e in enumerate(mons):
        n += 1
        v = cm.a[i, l * l + l + m]
        v = real(v, f'the coefficient of {e} in Y_{l}^{m}')
        if not near(v, ref.get(e, 0.0)):
          return dict(problems=finding('harmonics', f'degree {l}, order {m}: the coefficient of x^{e[0]} y^{e[1]} z^{e[2]} is {v:.12g} instead of {ref.get(e, 0.0):.12g}'), facts=n)
  return dict(problems=[], facts=n)


# ------------------------------------------------------------------------------ coupling
def unitary(l):
  """Rows: real harmonics, columns: complex harmonics."""
  v = np.zeros((2 * l + 1, 2 * l + 1), dtype=complex)
  h = 1 / math.sqrt(2)
  v[l, l] = 1
  for m in range(1, l + 1):
    e = m % 2 == 0
    v[l + m, l + m], v[l + m, l - m] = (h, h) if e else (-h, h)
    v[l - m, l - m], v[l - m, l + m] = (1j * h, -1j * h) if e else (1j * h, 1j * h)
  return v


_REF = {}


def coupling_block(l1, l2, l3):
  if (l1, l2, l3) not in _REF:
    c = np.zeros((2 * l1 + 1, 2 * l2 + 1, 2 * l3 + 1))
    for m1, m2 in itertools.product(range(-l1, l1 + 1), range(-l2, l2 + 1)):
      if abs(m1 + m2) <= l3:
        c[l1 + m1, l2 + m2, l3 + m1 + m2] = float(exact.cg(l1, l2, l3, m1, m2, m1 + m2))
    r = 1j ** ((l1 + l2 - l3) % 4) * np.einsum('abc,ia,jb,kc->ijk', c, unitary(l1), unitary(l2), unitary(l3).conj(), optimize=True)
    assert abs(r.imag).max() < 1e-9
    _REF[l1, l2, l3] = r.real
  return _REF[l1, l2, l3]


def coupling(L):
  t = generate('clebsch_gordan', L)
  cg = A.asarr(t['cg'], np_=True)
  n = (L + 1) ** 2
  if cg.shape != (n, n, n):
    return dict(problems=finding('coupling', f'max_degree={L}: table of shape {cg.shape}'), facts=1)
  k = 0
  for l1, l2, l3 in itertools.product(range(L + 1), repeat=3):
    ref = coupling_block(l1, l2, l3)
    for m1, m2, m3 in itertools.product(range(-l1, l1 + 1), range(-l2, l2 + 1), range(-l3, l3 + 1)):
      k += 1
      v = real(cg.a[l1 * l1 + l1 + m1, l2 * l2 + l2 + m2, l3 * l3 + l3 + m3], 'a coupling coefficient')
      w = ref[l1 + m1, l2 + m2, l3 + m3]
      if not near(v, w):
        return dict(problems=finding('coupling', f'max_degree={L}: the coefficient of ({l1},{m1}) ({l2},{m2}) ({l3},{m3}) is {v:.12g} instead of {w:.12g}'), facts=k)
  return dict(problems=[], facts=k)


def coupling_leaf(l1, l2, l3):
  s = session()
  f = get(s, 'e3x.so3._symbolic._clebsch_gordan')
  ref, k = coupling_block(l1, l2, l3), 0
  for m1, m2, m3 in itertools.product(range(-l1, l1 + 1), range(-l2, l2 + 1), range(-l3, l3 + 1)):
    if abs(m3) not in (abs(m1 + m2), abs(m1 - m2)):
      continue
    k += 1
    v, w = real(f(l1, m1, l2, m2, l3, m3), 'a coupling coefficient'), ref[l1 + m1, l2 + m2, l3 + m3]
    if not near(v, w):
      return dict(problems=finding('coupling', f'the coefficient of ({l1},{m1}) ({l2},{m2}) ({l3},{m3}) is {v:.12g} instead of {w:.12g}'), facts=k)
  return dict(problems=[], facts=k)


# ------------------------------------------------------------------------------ rotation
def rotations():
  rng = np.random.RandomState(5)
  out = [np.eye(3)]
  for _ in range(4):
    q, r = np.linalg.qr(rng.randn(3, 3))
    q = q * np.sign(np.diag(r))
    out.append(q if np.linalg.det(q) > 0 else -q)
  return out


def values(l, x):
  return np.array([sum(c * np.prod(x ** np.array(e), axis=1) for e, c in c29.harmonic(l, m).items()) for m in range(-l, l + 1)]).T


def wigner(l, R):
  """D[m_sph, m_rot]: Y_mrot(R x) = sum_msph D[m_sph, m_rot] Y_msph(x)."""
  x = np.random.RandomState(l).randn(8 * l + 8, 3)
  x /= np.linalg.norm(x, axis=1, keepdims=True)
  return np.linalg.lstsq(values(l, x), values(l, x @ R.T), rcond=None)[0]


def rotation(L):
  t = generate('wigner_d', L)
  cm, ls = A.asarr(t['cm'], np_=True), A.asarr(t['ls'], np_=True)
  nr = sum(math.comb(l + 8, 8) for l in range(L + 1))
  nw = sum((2 * l + 1) ** 2 for l in range(L + 1))
  if cm.shape != (nr, nw) or ls.shape != (nr, 9):
    return dict(problems=finding('rotation', f'max_degree={L}: tables of shape {cm.shape} and {ls.shape}'), facts=1)
  p = np.array([[int(v) for v in r] for r in ls.a])
  c = np.zeros(cm.shape)
  for i, j in np.ndindex(*cm.shape):
    v = cm.a[i, j]
    if not (isinstance(v, (int, float)) and v == 0):
      c[i, j] = real(v, 'a rotation coefficient')
  k = 0
  for R in rotations():
    vals = np.prod(R.reshape(-1) ** p, axis=1) @ c
    o = 0
    for l in range(L + 1):
      D, ref = vals[o:o + (2 * l + 1) ** 2].reshape(2 * l + 1, 2 * l + 1), wigner(l, R).T
      o += (2 * l + 1) ** 2
      k += D.size
      if abs(D - ref).max() > 1e-8:
        a, b = np.unravel_index(abs(D - ref).argmax(), D.shape)
        return dict(problems=finding('rotation', f'degree {l}: the entry of orders {b - l} and {a - l} is {D[a, b]:.9g} instead of {ref[a, b]:.9g} at a rotation'), facts=k)
  return dict(problems=[], facts=k + cm.a.size)


# ---------------------------------------------------------------------------- conversion
def conversion(L):
  t = generate('tensor_conversion', L)
  k = 0
  for l in range(L + 1):
    m = []
    for key in ('s2t', 't2s'):
      a = A.asarr(t[key][l], np_=True)
      m.append(np.array([[real(v, f'an entry of {key}') for v in r] for r in a.a]))
    out, n = c29.conversion_law(l, *m)
    k += n
    if out:
      return dict(problems=finding('conversion', f'degree {l}: {out}'), facts=k)
  return dict(problems=[], facts=k)


def leaf_exists():
  import ast
  import os
  from .. import interp as I
  p = os.path.join(I.REPO, 'e3x', 'so3', '_symbolic.py')
  if not os.path.exists(p):
    return False
  with open(p) as f:
    return any(isinstance(x, ast.FunctionDef) and x.name == '_clebsch_gordan' for x in ast.parse(f.read()).body)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  mined = run.mined_ints(3, 12, files=('_symbolic.py', '_common.py', *(v + '.py' for v in KINDS.values())))
  for L in sorted({0, 1, 2, 14 if th else 10}):
    obs.append(Ob(f'harmonics up to degree {L}', harmonics, (L,), 'harmonics', cost=L * L))
  for L in (0, 1, 2, 4 if th or not leaf_exists() else 3):
    obs.append(Ob(f'coupling up to degree {L}', coupling, (L,), 'coupling', cost=1 + L ** 5))
  if leaf_exists():
    tri = set()
    for d in sorted({4, 5, 6} | {m for m in mined if m <= 10} | ({7, 8} if th else set())):
      for a in range(0, d + 1):
        tri |= {(d, d - a, a), (d - a, a, d), (a, d, d - a), (d, a, d), (d, d, a), (a, d, d)}
        if d <= 5 or th:
          tri |= {(d, b, a) for b in range(d - a, d + 1)} | {(b, a, d) for b in range(d - a, d + 1)}
    for t in sorted(tri):
      obs.append(Ob(f'coupling of degrees {t}', coupling_leaf, t, 'coupling', cost=1 + 0.05 * math.prod(2 * l + 1 for l in t)))
  for L in sorted({0, 1, 2, 3, 7 if th else 5} | {m for m in mined if m == 6}):
    obs.append(Ob(f'rotation up to degree {L}', rotation, (L,), 'rotation', cost=1 + L ** 6))
  for L in (0, 1, 2, 3, 8 if th else 6):
    obs.append(Ob(f'conversion up to degree {L}', conversion, (L,), 'conversion', cost=1 + L ** 5))
  return obs
