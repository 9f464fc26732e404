"""C04: basis features are angular * radial * cutoff (* damping above degree zero).

`basis` is interpreted with opaque radial, cutoff, damping and angular functions
whose results are fresh atoms per displacement.  Rule 'product': every output
element is the product of exactly the atoms demanded by the definition (value
numbering), in the documented shape, and the returned cutoff and norm are the ones
of the same displacement.  Rule 'arguments': what is handed to the functions
depends on that displacement alone, and interval evaluation of the handed unit
vector and norm encloses r/|r| and |r| on a set of boxes including zero and tiny
vectors.  Rule 'default-angular': without angular_fn the result is the one of
Racah-normalised spherical harmonics with the requested component order.
"""

import itertools
import math

import numpy as np

from .. import arr as A
from .. import funcs
from .. import ival
from .. import lib
from .. import poly
from .. import rep
from .. import run
from ..run import Obligation as Ob


def _sess(**kw):
  s = rep.Session(fold=False, **kw)
  run.WORLDS.append(s.w)
  return s


class Spy:
  """Opaque functions recording their arguments."""

  def __init__(self, probs, lead):
    self.probs = probs
    self.lead = lead
    self.calls = {}

  def note(self, what, arg, shape):
    self.calls[what] = arg
    if tuple(arg.shape) != shape:
      self.probs.append(f'{what} receives an array of shape {arg.shape} instead of {shape}')
      return
    for ix in np.ndindex(*arg.shape):
      b = ix[:len(self.lead)]
      bad = poly.deps(arg.a[ix]) - {('r', b)}
      if bad:
        self.probs.append(f'{what} of displacement {list(b)} receives a value that depends on {sorted(bad, key=str)[0]}')
        return

  def atoms(self, what, n):
    a = np.empty((*self.lead, *n), dtype=object)
    for ix in np.ndindex(*a.shape):
      b = ix[:len(self.lead)]
      a[ix] = poly.var(what, ix, deps=frozenset([('r', b)]), name=f'{what}{list(ix)}')
    return a

  def radial(self, x, num):
    self.note('radial_fn', x, self.lead)
    self.R = self.atoms('radial', (num,))
    return A.Arr(A._obj(self.R), x.dtype, False, True)

  def cutoff(self, x):
    self.note('cutoff_fn', x, self.lead)
    self.C = self.atoms('cut', ())
    return A.Arr(A._obj(self.C), x.dtype, False, True)

  def damping(self, x):
    self.note('damping_fn', x, self.lead)
    self.D = self.atoms('damp', ())
    return A.Arr(A._obj(self.D), x.dtype, False, True)

  def angular(self, r, max_degree, cartesian_order):
    self.note('angular_fn', r, (*self.lead, 3))
    self.cart = cartesian_order
    self.Y = self.atoms('Y', ((max_degree + 1) ** 2,))
    return A.Arr(A._obj(self.Y), r.dtype, False, True)


def product(lead, L, num, cut, damp, rc, rn, cart, wrapper=None):
  s = _sess()
  probs = []
  spy = Spy(probs, lead)
  r = rep.vectors('r', lead)
  kw = dict(max_degree=L, num=num, radial_fn=spy.radial, angular_fn=spy.angular)
  if cut:
    kw['cutoff_fn'] = spy.cutoff
  if damp:
    kw['damping_fn'] = spy.damping
  if rc:
    kw['return_cutoff'] = True
  if rn:
    kw['return_norm'] = True
  if cart is not None:
    kw['cartesian_order'] = cart
  if wrapper:
    gam = []
    base = spy.radial

    def radial(x, num, gamma=None):
      gam.append(gamma)
      return base(x, num)
    kw['radial_fn'] = radial
    out = s.module('e3x.nn.ExponentialBasis')(r, **kw)
    if not gam or gam[0] is None:
      return ['ExponentialBasis: radial_fn is called without gamma']
  else:
    out = s.get('e3x.nn.basis')(r, **kw)
  want = 1 + bool(rc) + bool(rn)
  out = out if isinstance(out, tuple) else (out,)
  if len(out) != want:
    return [f'{len(out)} results instead of {want}']
  if probs:
    return probs
  y = out[0]
  if tuple(y.shape) != (*lead, 1, (L + 1) ** 2, num):
    return [f'basis has shape {y.shape} instead of {(*lead, 1, (L + 1) ** 2, num)}']
  if (True if cart is None else cart) != spy.cart:
    return [f'angular_fn receives cartesian_order={spy.cart}']
  for b in np.ndindex(*lead):
    for k in range((L + 1) ** 2):
      for f in range(num):
        e = spy.Y[(*b, k)] * spy.R[(*b, f)]
        if cut:
          e = e * spy.C[b]
        if damp and k > 0:
          e = e * spy.D[b]
        v = y.a[(*b, 0, k, f)]
        if not poly.same(v, e):
          return [f'component {k} (degree {math.isqrt(k)}), function {f} of displacement {list(b)} is {str(v)[:160]} instead of {str(e)[:160]}']
  i = 1
  if rc:
    c = out[i]
    i += 1
    if tuple(c.shape) != lead or any(not poly.same(c.a[b], spy.C[b]) for b in np.ndindex(*lead)):
      return ['the returned cutoff is not the cutoff of the same displacement']
  if rn:
    c = out[i]
    if tuple(c.shape) != lead or any(not poly.same(c.a[b], spy.calls['radial_fn'].a[b]) for b in np.ndindex(*lead)):
      return ['the returned norm is not the norm handed to the radial function']
  return dict(problems=[], facts=y.size)


def default_angular(lead, L, cart):
  """Default angular function against explicit Racah harmonics of the same unit vector."""
  s = _sess()
  s.hook_tables()
  res = []
  for explicit in (False, True):
    spy = Spy([], lead)
    r = rep.vectors('r', lead)
    kw = dict(max_degree=L, num=1, radial_fn=spy.radial)
    if cart is not None:
      kw['cartesian_order'] = cart
    if explicit:
      sh = s.get('e3x.so3.spherical_harmonics')

      def ang(r, max_degree, cartesian_order):
        return sh(r, max_degree, True, True if cart is None else cart, 'racah')
      kw['angular_fn'] = ang
    res.append(s.get('e3x.nn.basis')(r, **kw))
  a, b = res
  if a.shape != b.shape:
    return ['default angular function has another shape']
  for ix in np.ndindex(*a.shape):
    if not poly.same(a.a[ix], b.a[ix]):
      return [f'default angular function: component {list(ix)} is not the Racah-normalised spherical harmonic in the requested order']
  return dict(problems=[], facts=a.size)


VECS = [(0.0, 0.0, 0.0), (1.0, 0.0, 0.0), (0.0, -2.0, 0.0), (0.3, -0.4, 1.2), (1e-3, 2e-3, -1e-3), (1e-10, 0.0, 1e-10), (1e-15, 1e-16, 0.0), (300.0, 400.0, -1000.0),
        (1e-5, -1e-5, 2e-5), (2.0, 2.0, 2.0), (1e4, -1e4, 1.0), (1e-17, -3e-17, 2e-17)]


def arguments(lead2, sign):
  """Interval evaluation of what the functions receive."""
  s = funcs.session()
  f = s.get('e3x.nn.basis')
  n = 0
  for v0 in VECS:
    v = tuple(sign * c for c in v0)
    for width in (0.0, 1e-4):
      got = {}
      shape = (2, 3) if lead2 else (3,)
      a = np.empty(shape, dtype=object)
      for k in range(3):
        d = abs(v[k]) * width
        x = ival.Iv(v[k] - d, v[k] + d)
        if lead2:
          a[0, k] = x
          a[1, k] = ival.Iv(*[(1e5, 3e4, -1e5)[k]] * 2)
        else:
          a[k] = x
      def radial(x, num):
        got['radial_fn'] = x
        return s.w.lib['jax.numpy'].ones_like(x)[..., None]
      def cut(x):
        got['cutoff_fn'] = x
        return s.w.lib['jax.numpy'].ones_like(x)
      def damp(x):
        got['damping_fn'] = x
        return s.w.lib['jax.numpy'].ones_like(x)
      def ang(r, max_degree, cartesian_order):
        got['angular_fn'] = r
        return s.w.lib['jax.numpy'].ones_like(r[..., :1])
      f(A.Arr(A._obj(a), A.F32, False, True), max_degree=0, num=1, radial_fn=radial, cutoff_fn=cut, damping_fn=damp, angular_fn=ang)
      nn = math.sqrt(sum(c * c for c in v))
      ix = (0,) if lead2 else ()
      for w in ('radial_fn', 'cutoff_fn', 'damping_fn'):
        lo, hi, nan = ival.lift(got[w].a[ix]).v
        t = 1e-5 * max(nn, 1e-37)
        n += 1
        if lo > hi or nn < lo - t or nn > hi + t:
          return [f'{w} receives a value in [{lo:.6g}, {hi:.6g}] for r = {v}, the norm is {nn:.6g}']
      for k in range(3):
        lo, hi, nan = ival.lift(got['angular_fn'].a[(*ix, k)]).v
        e = v[k] / nn if nn > 0 else 0.0
        n += 1
        if lo > hi or e < lo - 1e-5 or e > hi + 1e-5:
          return [f'angular_fn receives component {k} in [{lo:.6g}, {hi:.6g}] for r = {v}, the unit vector has {e:.6g}']
  return dict(problems=[], facts=n)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  leads = [(), (1,), (2,), (2, 2)] + ([(3,), (2, 1, 2)] if th else [])
  mi = run.mined_ints(2, 9, files=('wrappers.py',))
  Ls = sorted({0, 1, 2, 3} | ({4, 6} if th else set()) | {m for m in mi if m <= 6})
  nums = sorted({1, 2, 3} | set(mi))
  for lead, L, num, cut, damp in itertools.product(leads, Ls, nums, (False, True), (False, True)):
    for rc, rn in ((False, False), (True, True), (True, False), (False, True)):
      if rc and not cut:
        continue
      for cart in (None, False, True):
        if cart is not None and (lead != (2,) or rn):
          continue
        obs.append(Ob(f'basis lead={lead} L={L} num={num} cutoff={cut} damping={damp} return_cutoff={rc} return_norm={rn} order={cart}',
                      product, (lead, L, num, cut, damp, rc, rn, cart), 'product'))
        if lead == (2,) and num == 2:
          obs.append(Ob(f'ExponentialBasis L={L} cutoff={cut} damping={damp} return_cutoff={rc} return_norm={rn} order={cart}',
                        product, (lead, L, num, cut, damp, rc, rn, cart, True), 'product'))
  for L in (0, 1, 2) + ((3,) if th else ()):
    for cart in (None, True, False):
      obs.append(Ob(f'default angular function L={L} order={cart}', default_angular, ((2,), L, cart), 'default-angular', cost=3))
  for L in sorted({6} | {m for m in mi if 6 < m <= 9}):
    for cut, damp in ((False, True), (True, True), (True, False)):
      obs.append(Ob(f'basis L={L} cutoff={cut} damping={damp}', product, ((), L, 1, cut, damp, cut, True, True), 'product'))
  for l2 in (False, True):
    for sg in (1, -1):
      obs.append(Ob(f'arguments batch={l2} sign={sg}', arguments, (l2, sg), 'arguments', cost=2))
  return obs
