"""Registry of scalar functions of the package and partitions of their domain.

Used by the interval checks.  Nothing here is read from the analysed source except
through the abstract interpreter; the reference definitions are the documented
formulas, written independently.
"""

import ast
import math
import os

import numpy as np

from . import arr as A
from . import interp as I
from . import ival
from . import lib
from . import rep
from . import run

EPS = 5.9604645e-08      # float32 epsneg
FEPS = 1.1920929e-07     # float32 eps


def session():
  s = rep.Session()
  lib._MODE[0] = 'ival'
  run.WORLDS.append(s.w)
  return s


def f32(x):
  return float(np.float32(x))


def nxt(x, s=1):
  return float(np.nextafter(np.float32(x), np.float32(math.inf * s)))


def mined_floats(files):
  """Numeric constants that the source compares with (isolated as cells)."""
  out = set()
  for f in files:
    p = os.path.join(I.REPO, 'e3x', f)
    if not os.path.exists(p):
      continue
    try:
      t = I.parse(p)
    except SyntaxError:
      continue
    for n in ast.walk(t):
      if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
        v = abs(float(n.value))
        if 1e-30 < v <= 1e4:
          out |= {v, -v}
  return sorted(out)


def partition(lo, hi, specials, n):
  """Cells covering [lo, hi]: degenerate cells at special points and n-fold fills."""
  pts = sorted({f32(p) for p in specials if lo <= f32(p) <= hi} | {f32(lo), f32(hi)})
  cells = []
  for i, p in enumerate(pts):
    cells.append((p, p))
    if i + 1 < len(pts):
      a, b = nxt(p), nxt(pts[i + 1], -1)
      if a <= b:
        cells += fill(a, b, (hi - lo) / n)
  return cells


def fill(a, b, h):
  """Splits [a, b] uniformly with width <= h, geometrically near zero."""
  if a == b:
    return [(a, b)]
  out = []
  if a >= 0 or b <= 0:
    s = 1 if a >= 0 else -1
    x, y = (a, b) if s > 0 else (-b, -a)
    cur = x
    while cur < y:
      step = max(cur * (0.5 if cur < 1e-2 else 1.0), 1e-30)
      nx = min(y, cur + min(step, h * max(1.0, cur / 4)))
      if y - nx < 1e-3 * h and cur > 1e-2:
        nx = y
      out.append((cur, nx) if s > 0 else (-nx, -cur))
      cur = nx
      if len(out) > 20000:
        out.append((cur, y) if s > 0 else (-y, -cur))
        break
    return sorted(out)
  return fill(a, nxt(0.0, -1), h) + fill(nxt(0.0), b, h)


class Fn:

  def __init__(self, name, kw, dom, specials, kind, args=None):
    self.name = name
    self.kw = kw
    self.dom = dom
    self.specials = specials
    self.kind = kind

  @property
  def label(self):
    return self.name + '(' + ', '.join(f'{k}={v!r}' for k, v in self.kw.items()) + ')'

  def bind(self, s):
    f = s.get('e3x.nn.' + self.name)
    kw = self.kw
    def ev(lo, hi):
      r = f(ival.arr(ival.var(lo, hi), ()), **kw)
      return [ival.lift(v) for v in A.asarr(r).a.flat]
    return ev


BASE = [0.0, 1e-30, 1e-20, 1e-10, 1e-8, 1e-7, 1e-6, 1e-4, 1e-3, 0.5, 1.0, 2.0, 10.0, 100.0, 1e3, 1e4, EPS, FEPS, nxt(EPS),
        nxt(EPS, -1), nxt(FEPS), nxt(FEPS, -1)]


def around(*pts):
  out = []
  for p in pts:
    out += [p, nxt(p), nxt(p, -1)]
  return out


def lim(limit, num=1):
  pts = []
  for k in range(0, num + 2):
    pts += around(limit * k / num)
  for k in {1, num}:
    pts += [limit * k / num * (1 + d) for d in (-2e-2, -1e-3, -5e-5, 5e-5, 1e-3, 2e-2)]
  e = [limit * (1 - EPS), limit * (1 - 2 * EPS), limit * EPS, limit * FEPS]
  return pts + e


KINDS = ('shifted', 'damped', 'cuspless')


def registry(th, nums=(1, 2, 3, 5)):
  files = ['nn/functions/' + f for f in ('cutoff.py', 'switch.py', 'damping.py', 'window.py', 'mappings.py', 'gaussian.py', 'bernstein.py',
                                         'chebyshev.py', 'trigonometric.py')]
  mined = mined_floats(files)
  mi = [m for m in run.mined_ints(2, 70, files=('bernstein.py', 'chebyshev.py', 'gaussian.py', 'trigonometric.py', 'window.py'))]
  nums = sorted(set(nums) | set(mi[-5:]) | ({8} if th else set()))
  sp = BASE + mined
  neg = sp + [-v for v in sp]
  out = []
  # parameter values on both sides of thresholds in the source
  odd = [v * q for v in sorted({abs(m) for m in mined if not 0.5 <= abs(m) <= 6.0})[:3] for q in (0.5, 2.0)]
  for c in [1.0, 0.5, 5.0] + odd:
    for n in ('smooth_cutoff', 'cosine_cutoff'):
      kw = {} if c == 1.0 else dict(cutoff=c)
      out.append(Fn(n, kw, (0.0, 1e4), sp + lim(c), 'cutoff'))
  for x0, x1 in ((0.0, 1.0), (-1.0, 2.0), (0.5, 3.0), (0.0, 4.0), (0.0, 0.5), (-1.5, 1.0)):
    kw = {k: v for k, v, d in (('x0', x0, 0.0), ('x1', x1, 1.0)) if v != d}
    w = x1 - x0
    out.append(Fn('smooth_switch', kw, (-1e4, 1e4), neg + around(x0, x1, x0 + w * EPS, x1 - w * EPS, 0.5 * (x0 + x1)), 'switch'))
  for g in [1.0, 0.5, 4.0] + odd:
    out.append(Fn('smooth_damping', {} if g == 1.0 else dict(gamma=g), (0.0, 1e4), sp, 'damping'))
  for k in KINDS:
    out.append(Fn('reciprocal_mapping', dict(kind=k), (0.0, 1e4), sp, 'mapping'))
  for g in [1.0, 0.5, 4.0] + odd:
    for c in (False, True):
      out.append(Fn('exponential_mapping', dict(gamma=g, cuspless=c), (0.0, 1e4), sp, 'mapping'))
  for num in nums:
    for l in [1.0, 4.0] + (odd if num == 2 else []):
      for n, kind in (('rectangular_window', 'unit'), ('triangular_window', 'unit'), ('smooth_window', 'unit'),
                      ('basic_gaussian', 'unit'), ('basic_bernstein', 'unit'), ('basic_chebyshev', 'abs1'),
                      ('basic_fourier', 'abs1'), ('sinc', 'abs1')):
        kw = dict(num=num) if l == 1.0 else dict(num=num, limit=l)
        out.append(Fn(n, kw, (0.0, 1e4), sp + lim(l, num), kind))
    for base, kind in (('gaussian', 'unit'), ('bernstein', 'unit'), ('chebyshev', 'abs1'), ('fourier', 'abs1')):
      for k in KINDS:
        for wt in (False, True):
          out.append(Fn('reciprocal_' + base, dict(num=num, kind=k, use_reciprocal_weighting=wt), (0.0, 1e4), sp, kind))
      for g, c, wt in ((1.0, False, False), (1.0, True, False), (1.0, False, True), (1.0, True, True), (3.0, False, False), (0.5, True, False), *((g, False, False) for g in odd if num == 2)):
        kw = dict(num=num, cuspless=c, use_exponential_weighting=wt)
        if g != 1.0:
          kw['gamma'] = g
        out.append(Fn('exponential_' + base, kw, (0.0, 1e4), sp, kind))
  return out
