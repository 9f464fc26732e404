"""C29: shipped constant tables obey the laws that define them.

The constants the package ships (quadrature rules, spherical harmonics coefficients, tensor
conversion matrices) are part of the source; they are read as data, nothing of the package
is executed.  Rule 'quadrature': the points of each rule are unit vectors and the weights
integrate every spherical harmonic up to the listed precision to its mean over the sphere,
so that also neither truncation nor permutation of points against weights goes unnoticed.
Rule 'harmonics': the column of degree l and order m holds the coefficients of the real
solid harmonic with the documented order, sign and (Racah) normalisation, every monomial of
a degree is listed once.  Rule 'conversion': the matrices of each degree map harmonics of a
vector to the components of its symmetric traceless tensor power and back.
"""

import fractions
import itertools
import math
import os

import numpy as np

from .. import interp as I
from .. import run
from ..errors import AnchorMissing
from ..run import Obligation as Ob

FR = fractions.Fraction
SO3 = lambda name: os.path.join(I.REPO, 'e3x', 'so3', name)


def table(name):
  p = SO3(name)
  if not os.path.exists(p):
    raise AnchorMissing(f'{p} is missing')
  with np.load(p) as z:
    return {k: z[k] for k in z.files}


# ---------------------------------------------------------------------------- quadrature
def moments(r, w, L):
  """Largest |integral| of the (orthonormal over the mean) harmonics of each degree 0..L."""
  x, y, z = r.T
  out = np.zeros(L + 1)
  sect = np.ones_like(z)
  c, s = np.ones_like(z), np.zeros_like(z)      # real and imaginary part of (x + iy)^m
  for m in range(L + 1):
    if m:
      c, s = c * x - s * y, s * x + c * y
      sect = sect * math.sqrt((2 * m + 1) / (2 * m)) if m > 1 else sect * math.sqrt(3.0)
    prev, cur = np.zeros_like(z), sect
    for l in range(m, L + 1):
      if l > m:
        a = math.sqrt((4 * l * l - 1) / (l * l - m * m))
        b = math.sqrt(((l - 1) ** 2 - m * m) * (2 * l + 1) / ((2 * l - 3) * (l * l - m * m))) if l > m + 1 else 0.0
        prev, cur = cur, a * z * cur - b * prev
      out[l] = max(out[l], abs(float(w @ (cur * c))), abs(float(w @ (cur * s))) if m else 0)
  return out


def quadrature(fam, i):
  t = table(f'_{fam}_grids.npz')
  what = f'{fam} rule {i} (precision {int(t["precision"][i])}, {int(t["num"][i])} points)'
  r, w, L = t[f'r{i}'], t[f'w{i}'], int(t['precision'][i])
  out = []
  fail = lambda msg: out.append(run.Finding('quadrature', what, f'{what}: {msg}', f'_{fam}_grids.npz'))
  if r.shape != (int(t['num'][i]), 3) or w.shape != r.shape[:1]:
    fail(f'points of shape {r.shape} and weights of shape {w.shape}')
  elif not (np.isfinite(r).all() and np.isfinite(w).all()):
    fail('points or weights are not finite')
  else:
    d = np.abs((r ** 2).sum(1) - 1)
    if d.max() > 1e-11:
      fail(f'point {int(d.argmax())} is not on the unit sphere')
    v = moments(r, w, L)
    v[0] = abs(float(w.sum()) - 1)
    if v.max() > 1e-9:
      fail(f'a harmonic of degree {int(v.argmax())} integrates to {v.max():.3g} off its mean')
  return dict(problems=out, facts=len(w) + (L + 1) ** 2)


# ----------------------------------------------------------------------------- harmonics
def legendre(l):
  """Coefficients of the Legendre polynomial {power: coefficient}."""
  return {l - 2 * k: FR((-1) ** k * math.comb(l, k) * math.comb(2 * l - 2 * k, l), 2 ** l) for k in range(l // 2 + 1)}


def harmonic(l, m):
  """Monomials {(a, b, c): float} of the Racah-normalised real solid harmonic."""
  am = abs(m)
  pz = {p - am: c * FR(math.factorial(p), math.factorial(p - am)) for p, c in legendre(l).items() if p >= am}
  azi = {}
  for q in range(am + 1):            # (x + iy)^am
    k = am - q
    if k % 2 == (m < 0):
      azi[q, k] = math.comb(am, q) * (1 if k % 4 in (0, 1) else -1)
  out = {}
  for p, c in pz.items():
    e = (l - am - p) // 2            # homogenised with r^2
    for i, j in itertools.product(range(e + 1), repeat=2):
      if i + j > e:
        continue
      n = FR(math.factorial(e), math.factorial(i) * math.factorial(j) * math.factorial(e - i - j))
      for (q, k), s in azi.items():
        key = (q + 2 * i, k + 2 * j, p + 2 * (e - i - j))
        out[key] = out.get(key, 0) + c * n * s
  norm = FR(math.factorial(l - am), math.factorial(l + am)) * (2 if m else 1)
  return {k: float(v) * math.sqrt(norm) for k, v in out.items() if v}


def harmonics(l):
  t = table('_spherical_harmonics_lut.npz')
  L = int(t['max_degree'])
  nc = lambda n: (n + 1) * (n + 2) * (n + 3) // 6
  out, facts = [], 0
  fail = lambda msg: out.append(run.Finding('harmonics', f'degree {l}', msg, '_spherical_harmonics_lut.npz'))
  cm = np.zeros((nc(L), (L + 1) ** 2))
  cm[t['i0'], t['i1']] = t['cm']
  ls = [tuple(map(int, v)) for v in t['ls']]
  if len(ls) != nc(L):
    fail(f'{len(ls)} monomials instead of {nc(L)}')
    return dict(problems=out, facts=1)
  lo = nc(l - 1) if l else 0
  want = {(a, b, l - a - b) for a in range(l + 1) for b in range(l + 1 - a)}
  if set(ls[lo:nc(l)]) != want:
    fail(f'the monomials {lo} to {nc(l)} are not those of degree {l}')
  for m in range(-l, l + 1):
    col = cm[:, l * l + l + m]
    ref = harmonic(l, m)
    for i, e in enumerate(ls):
      facts += 1
      if abs(col[i] - ref.get(e, 0.0)) > 1e-10 * max(1.0, abs(ref.get(e, 0.0))):
        fail(f'degree {l}, order {m}: the coefficient of x^{e[0]} y^{e[1]} z^{e[2]} is {col[i]:.12g} instead of {ref.get(e, 0.0):.12g}')
        return dict(problems=out, facts=facts)
  return dict(problems=out, facts=facts)


# ---------------------------------------------------------------------------- conversion
def traceless(alpha, l):
  """Component alpha of the traceless projection of the l-th power of (x, y, z), as monomials.

  Sum over the ways to replace m pairs of indices by Kronecker deltas and the remaining factors
  by coordinates times r^2m, with weights (-1)^m (2l-2m-1)!!/(2l-1)!!.
  """
  out = {}
  dfac = lambda n: math.prod(range(n, 0, -2)) if n > 0 else 1
  n = [alpha.count(i) for i in range(3)]
  for ms in itertools.product(*(range(k // 2 + 1) for k in n)):
    m = sum(ms)
    ways = math.prod(math.factorial(k) // (2 ** q * math.factorial(q) * math.factorial(k - 2 * q)) for k, q in zip(n, ms))
    w = FR((-1) ** m * dfac(2 * l - 2 * m - 1), dfac(2 * l - 1)) * ways
    e = [k - 2 * q for k, q in zip(n, ms)]
    for i, j in itertools.product(range(m + 1), repeat=2):
      if i + j <= m:
        q = FR(math.factorial(m), math.factorial(i) * math.factorial(j) * math.factorial(m - i - j))
        key = (e[0] + 2 * i, e[1] + 2 * j, e[2] + 2 * (m - i - j))
        out[key] = out.get(key, 0) + w * q
  return {k: float(v) for k, v in out.items() if v}


def conversion_law(l, s2t, t2s):
  """(what is wrong or None, number of facts)."""
  ns, nt = 2 * l + 1, (l + 1) * (l + 2) // 2
  if s2t.shape != (ns, nt) or t2s.shape != (nt, ns):
    return f'matrices of shape {s2t.shape} and {t2s.shape} instead of {(ns, nt)} and {(nt, ns)}', 1
  mons = [(a, b, l - a - b) for a in range(l + 1) for b in range(l + 1 - a)]
  pos = {e: i for i, e in enumerate(mons)}
  Y = np.zeros((len(mons), ns))
  for m in range(-l, l + 1):
    for e, c in harmonic(l, m).items():
      Y[pos[e], l + m] = c
  facts = 0
  for i, alpha in enumerate(itertools.combinations_with_replacement((0, 1, 2), l)):
    ref = np.zeros(len(mons))
    for e, c in traceless(alpha, l).items():
      ref[pos[e]] = c
    facts += len(mons)
    d = np.abs(Y @ s2t[:, i] - ref)
    if d.max() > 1e-9 * max(1.0, np.abs(ref).max()):
      e = mons[int(d.argmax())]
      return f'component {"".join("xyz"[a] for a in alpha)} of the tensor is off by {d.max():.3g} in the coefficient of x^{e[0]} y^{e[1]} z^{e[2]}', facts
  facts += ns * ns
  d = np.abs(s2t @ t2s - np.eye(ns))
  if d.max() > 1e-8:
    return f'the conversions are not inverse to each other (off by {d.max():.3g})', facts
  return None, facts


def conversion(l):
  t = table('_tensor_conversion_lut.npz')
  out, facts = conversion_law(l, t[f's2t{l}'], t[f't2s{l}'])
  return dict(problems=[run.Finding('conversion', f'degree {l}', f'degree {l}: {out}', '_tensor_conversion_lut.npz')] if out else [], facts=facts)


def degrees(name, rule, keys):
  """The listed maximum degree is the one the table holds."""
  t = table(name)
  out = []
  if sorted(t) != sorted(keys(int(t['max_degree']))):
    out.append(run.Finding(rule, name, f'{name}: entries {sorted(t)} for max_degree {int(t["max_degree"])}', name))
  return dict(problems=out, facts=len(t))


def obligations(tier):
  obs = []
  for fam in ('lebedev', 'delley'):
    t = table(f'_{fam}_grids.npz')
    for i in range(len(t['precision'])):
      obs.append(Ob(f'{fam} rule {i}', quadrature, (fam, i), 'quadrature', cost=1 + i))
  for l in range(int(table('_spherical_harmonics_lut.npz')['max_degree']) + 1):
    obs.append(Ob(f'harmonics of degree {l}', harmonics, (l,), 'harmonics', cost=1 + l))
  obs.append(Ob('harmonics entries', degrees, ('_spherical_harmonics_lut.npz', 'harmonics', lambda L: ('max_degree', 'ls', 'cm', 'i0', 'i1')), 'harmonics'))
  for l in range(int(table('_tensor_conversion_lut.npz')['max_degree']) + 1):
    obs.append(Ob(f'conversion of degree {l}', conversion, (l,), 'conversion', cost=1 + l))
  obs.append(Ob('conversion entries', degrees, ('_tensor_conversion_lut.npz', 'conversion', lambda L: ['max_degree', *(f's2t{l}' for l in range(L + 1)), *(f't2s{l}' for l in range(L + 1))]), 'conversion'))
  return obs
