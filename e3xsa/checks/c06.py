"""C06: finite values and finite first derivatives, also at the singular points.

Interval abstract interpretation with explicit NaN/inf tracking of values and of
reverse-mode derivatives (the unselected operand of a selection contributes
0 * derivative, which is NaN for an infinite derivative).  The input line is
partitioned into cells with the singular points (0, interval boundaries, rounding
thresholds, every constant of the source) isolated.  Rule 'finite': no cell on
which every value, or every derivative, is NaN or infinite.  Cells on which
non-finiteness cannot be excluded after bisection are counted as unresolved.
"""

import math

import numpy as np

from .. import arr as A
from .. import funcs
from .. import ival
from .. import rep
from .. import run
from ..run import Obligation as Ob


def scan(ev, cells, what, budget=300):
  """Evaluates cells; returns problems and statistics."""
  todo = [(c, 0) for c in reversed(cells)]
  n = un = 0
  while todo:
    (lo, hi), d = todo.pop()
    vals = ev(lo, hi)
    n += 1
    may = False
    for i, v in enumerate(vals):
      cell = f'at x = {lo:.9g}' if lo == hi else f'for every x in [{lo:.6g}, {hi:.6g}]'
      if ival.t_bad_must(v.v):
        return [f'{what}: output {i} is NaN or infinite {cell}'], n, un
      if v.t is not None and ival.t_bad_must(v.t):
        return [f'{what}: the derivative of output {i} is NaN or infinite {cell}'], n, un
      may = may or ival.t_bad_may(v.v) or (v.t is not None and ival.t_bad_may(v.t))
    if may:
      if lo < hi and d < 5 and budget > 0:
        m = funcs.f32(0.5 * (lo + hi)) if lo * hi <= 0 or hi < 4 * lo or lo < 1e-20 else funcs.f32(math.sqrt(lo * hi))
        if lo < m < hi:
          budget -= 2
          todo.append(((m, hi), d + 1))
          todo.append(((lo, m), d + 1))
          continue
      un += 1
  return [], n, un


def function(fn, h):
  s = funcs.session()
  cells = funcs.partition(*fn.dom, fn.specials, max(1, (fn.dom[1] - fn.dom[0]) / h))
  pr, n, un = scan(fn.bind(s), cells, fn.label)
  return dict(problems=pr, facts=n - un)


ACT = [('relu', {}), ('leaky_relu', {}), ('leaky_relu', dict(negative_slope=0.3)), ('elu', {}), ('elu', dict(alpha=0.5)),
       ('selu', {}), ('celu', {}), ('celu', dict(alpha=2.0)), ('silu', {}), ('swish', {}), ('gelu', {}), ('gelu', dict(approximate=False)),
       ('mish', {}), ('mish', dict(fast=False)), ('serf', {}), ('shifted_softplus', {}), ('hard_tanh', {}), ('soft_sign', {}),
       ('relu6', {}), ('hard_silu', {}), ('hard_swish', {}), ('bent_identity', {})]


def act_specials():
  b = funcs.BASE + funcs.mined_floats(['nn/activations.py']) + funcs.around(1.0, 3.0, 6.0, 0.1, funcs.EPS, funcs.FEPS) + [20.0, 44.0, 50.0, 88.0, 89.0, 90.0, 104.0, 200.0]
  return b + [-v for v in b]


def activation(name, kw, h):
  s = funcs.session()
  f = s.get('e3x.nn.' + name)
  probs, facts = [], 0
  for shape in ((1, 4, 1), (2, 4, 1)):
    def ev(lo, hi):
      a = A._full(shape, ival.Iv(0.5, 0.75))
      a[0, 0, 0] = ival.var(lo, hi)
      return [ival.lift(v) for v in f(A.Arr(a, A.F32, False, True), **kw).a.flat]
    cells = funcs.partition(-1e4, 1e4, act_specials(), 2e4 / h)
    if shape[0] == 2:
      cells = cells[::4] + [c for c in cells if c[0] == c[1]]
    pr, n, un = scan(ev, cells, f'{name}({kw})')
    probs += pr
    facts += n - un
  return dict(problems=probs, facts=facts)


DIRS = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (1.0, 1.0, 1.0), (1.0, -2.0, 0.5)]


def vec_specials():
  b = funcs.BASE + [1e-38, 1e-35, 1e-25, 1e-23, 1e-19, 1e-15] + funcs.mined_floats(['ops/safe.py'])
  return b + [-v for v in b]


def vector_fn(name, d, offset, kw, h):
  """x = variable * d + offset along the last axis."""
  s = funcs.session()
  f = s.get('e3x.ops.' + name)

  def ev(lo, hi):
    t = ival.var(lo, hi)
    a = np.empty((2, 3), dtype=object)
    for k in range(3):
      a[0, k] = t * d[k] + offset[k] if d[k] else ival.lift(offset[k])
      a[1, k] = ival.lift((0.0, 2.0, 1.0)[k])
    r = f(A.Arr(A._obj(a), A.F32, False, True), **kw)
    out = []
    for y in (r if isinstance(r, tuple) else (r,)):
      out += [ival.lift(v) for v in A.asarr(y).a.flat]
    return out
  cells = funcs.partition(-1e4, 1e4, vec_specials(), 2e4 / h)
  pr, n, un = scan(ev, cells, f'ops.{name}(t*{d}+{offset}, {kw})')
  return dict(problems=pr, facts=n - un)


def softmax(fmt, mask, mult, other, h):
  s = funcs.session()
  f = s.get('e3x.ops.indexed_softmax')
  where = s.get('e3x.ops').env.vars.get('jnp') if False else None
  jnp = s.w.lib['jax.numpy']
  n = len(mask)

  def ev(lo, hi):
    t = ival.var(lo, hi)
    if fmt == 'dense':
      a = np.empty((n, 2), dtype=object)
      for i in range(n):
        a[i, 0] = t if i < 2 else ival.lift(other)
        a[i, 1] = ival.lift(other) if i < 2 else t
      kw = dict(adj_idx=rep.ints([[0, 1]] * n), where=rep.bools(mask))
      keep = rep.bools(mask)
      shape = (n, 2)
    else:
      dst = [i for i in range(n) for k in range(2) if mask[i][k]] + [n, n]
      a = np.empty((len(dst),), dtype=object)
      for j in range(len(dst)):
        a[j] = t if j % 2 == 0 else ival.lift(other)
      kw = dict(dst_idx=rep.ints(dst), num_segments=n)
      keep = rep.bools([i < n for i in dst])
      shape = (len(dst),)
    if mult is not None:
      m = np.empty(shape, dtype=object)
      for j, ix in enumerate(np.ndindex(*shape)):
        m[ix] = float(mult[j % len(mult)])
      kw['multiplicative_mask'] = A.Arr(A._obj(m), A.F32, False, True)
    y = f(A.Arr(A._obj(a), A.F32, False, True), **kw)
    z = jnp.sum(jnp.where(keep, y, 0.0))
    return [ival.lift(v) for v in y.a.flat] + [ival.lift(v) for v in A.asarr(z).a.flat]
  sp = [0.0, 1.0, 88.0, 89.0, 100.0, 1e3, 1e4]
  cells = funcs.partition(-1e4, 1e4, sp + [-v for v in sp], 2e4 / h)
  pr, k, un = scan(ev, cells, f'indexed_softmax {fmt} mask={mask} multiplicative_mask={mult}')
  return dict(problems=pr, facts=k - un)


def sh_hook(s):
  """Spherical harmonics table with unknown bounded coefficients."""
  gens = s.table_generators('_spherical_harmonics_lut')
  common = s.get('e3x.so3._common')

  def hook(f, args, kwargs):
    L = kwargs.get('max_degree', args[0] if args else None)
    powers = []
    for l in range(L + 1):
      powers += [tuple(p) for p in s.w.interp.iterate(s.w.interp.getattr(common, '_monomial_powers_of_degree')(l))]
    ls = np.empty((len(powers), 3), dtype=object)
    cm = A._full((len(powers), (L + 1) ** 2), 0.0)
    for i, p in enumerate(powers):
      for k in range(3):
        ls[i, k] = int(p[k])
      l = sum(p)
      for j in range(l * l, (l + 1) ** 2):
        cm[i, j] = ival.Iv(-9.0, 9.0)
    return dict(max_degree=L, ls=A.Arr(A._obj(ls), A.I64, False, False, True), cm=A.Arr(cm, A.F64, False, False, True))
  for g in gens:
    s.w.interp.call_hooks[g] = hook


def basis(radial, kw, cutoff, damping, d, h):
  s = funcs.session()
  sh_hook(s)
  import functools
  f = s.get('e3x.nn.basis')
  opt = {}
  if cutoff:
    opt.update(cutoff_fn=s.get('e3x.nn.' + cutoff), return_cutoff=True)
  if damping:
    opt['damping_fn'] = s.get('e3x.nn.smooth_damping')
  rf = functools.partial(s.get('e3x.nn.' + radial), **kw)

  def ev(lo, hi):
    t = ival.var(lo, hi)
    a = np.empty((1, 3), dtype=object)
    for k in range(3):
      a[0, k] = t * d[k] if d[k] else ival.lift(0.0)
    r = f(A.Arr(A._obj(a), A.F32, False, True), max_degree=2, num=3, radial_fn=rf, return_norm=True, **opt)
    out = []
    for y in (r if isinstance(r, tuple) else (r,)):
      out += [ival.lift(v) for v in A.asarr(y).a.flat]
    return out
  sp = funcs.BASE + funcs.around(1.0)
  cells = [c for c in funcs.partition(0.0, 10.0, sp, 10.0 / h)]
  pr, n, un = scan(ev, cells, f'basis(radial_fn={radial}, {kw}, cutoff_fn={cutoff}, damping={damping}) along {d}', budget=20)
  return dict(problems=pr, facts=n - un)


def obligations(tier):
  th = tier == 'thorough'
  h = 0.02 if th else 0.1
  obs = []
  R = 'finite'
  for fn in funcs.registry(th, (1, 2, 3, 5) if th else (1, 2, 4)):
    obs.append(Ob(fn.label, function, (fn, h), R, cost=5))
  for name, kw in ACT:
    obs.append(Ob(f'{name}({kw})', activation, (name, kw, h), R, cost=4))
  for d in DIRS:
    for off in ((0.0, 0.0, 0.0), (0.0, 0.0, 1.0)):
      for name, kws in (('norm', [dict(axis=-1), dict(axis=-1, keepdims=True), dict(axis=None), {}, dict(axis=(0, 1), keepdims=True)]),
                        ('normalize', [dict(axis=-1), {}]),
                        ('normalize_and_return_norm', [dict(axis=-1), dict(axis=-1, keepdims=True)])):
        for kw in kws:
          obs.append(Ob(f'ops.{name} {d}+{off} {kw}', vector_fn, (name, d, off, kw, 0.25 if not th else 0.05), R, cost=3))
  masks = [[[True, True], [True, False], [False, False]], [[True, True], [False, False], [True, True]], [[False, False]] * 3,
           [[False, True], [True, False], [True, True]]]
  for fmt in ('dense', 'sparse'):
    for m in masks:
      for mult in (None, (1.0, 0.0), (0.0, 0.0), (0.5, 1.0, 0.0)):
        for other in (0.0, 500.0, -500.0):
          obs.append(Ob(f'indexed_softmax {fmt} {m} mult={mult} other={other}', softmax, (fmt, m, mult, other, 1.0 if not th else 0.2), R, cost=3))
  for radial, kw in (('basic_gaussian', {}), ('reciprocal_bernstein', {}), ('exponential_bernstein', {}), ('basic_bernstein', {}), ('sinc', {}),
                     ('basic_chebyshev', {}), ('reciprocal_gaussian', dict(kind='damped')), ('exponential_gaussian', dict(cuspless=True)),
                     ('triangular_window', {}), ('smooth_window', {}), ('basic_fourier', {})):
    for cutoff, damping in ((None, False), ('smooth_cutoff', False), ('cosine_cutoff', True)):
      for d in (DIRS if th else DIRS[:1] + DIRS[2:3]):
        obs.append(Ob(f'basis {radial} {kw} cutoff={cutoff} damping={damping} {d}', basis, (radial, kw, cutoff, damping, d, 0.5), R, cost=10))
  return obs
