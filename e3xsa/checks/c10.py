"""C10: floating-point precision of inputs and settings is respected.

Every operation of the catalogue and every layer is interpreted with inputs of each
floating type, with and without 64-bit mode; the dtype of every array that arises is
known exactly.  Rules: 'not-narrower' (results can represent the inputs), 'same-type'
(operations without table look-ups return the type of the inputs), 'double-throughout'
(with double inputs and parameters no inexact value is ever held in a narrower type),
'no-detour' (with single inputs no value passes through half precision),
'layer-type' (layers return at least the requested computation type, else the
promotion of inputs and parameters; attention, dense and embedding exactly) and
'param-type' (every parameter is created with the requested parameter type).
"""

import itertools

import numpy as np

from .. import arr as A
from .. import catalog
from .. import elem
from .. import lib
from .. import poly
from .. import run
from ..errors import Unsupported
from ..run import Obligation as Ob

# functions whose formula uses no array constants of default precision
SAME = ('smooth_cutoff', 'cosine_cutoff', 'smooth_switch', 'smooth_damping', 'reciprocal_mapping', 'exponential_mapping')


def exact_group(op):
  return op.group in ('activation', 'features', 'indexed') or op.group == 'safe' or (op.group == 'function' and op.name.split('(')[0] in SAME)


def name_of(d):
  return d.name


def floats(r):
  return [y for y in r if y.dtype.kind == 'f' or y.dtype.name == 'bfloat16']


def wider(d, e):
  """d can represent e."""
  return A.promote2(d, False, e, False)[0] is d or A.promote2(d, False, e, False)[0].name == d.name


class Watch:
  """Records arrays of narrow floating types that hold values which need more precision."""

  def __init__(self, below):
    self.below = below
    self.hits = []

  def __enter__(self):
    self.old = A.Arr.__init__
    old, names, hits = self.old, self.below, self.hits
    tracing = [False]

    def init(o, a, dtype, weak=False, traced=False, np_=False, tag=None):
      old(o, a, dtype, weak, traced, np_, tag)
      if dtype is not None and dtype.name in names and not weak and not hits:
        t = {'float16': np.float16, 'float32': np.float32}.get(dtype.name)
        for v in (a.flat if isinstance(a, np.ndarray) else [a]):
          if elem.is_abs(v):
            hits.append((dtype.name, poly.LOC[0]))
            return
          if isinstance(v, (int, float)) and not isinstance(v, bool) and v == v and abs(v) < 1e30:
            if t is None or float(t(v)) != float(v):
              hits.append((dtype.name, poly.LOC[0]))
              return
    A.Arr.__init__ = init
    return self

  def __exit__(self, *a):
    A.Arr.__init__ = self.old


def operation(i, th, dt, x64):
  A.X64[0] = x64
  op = catalog.operations(th)[i]
  D = A.todtype(dt)
  s = catalog.session()
  run.WORLDS.append(s.w)
  xs = [p.make((), D) if p.kind in ('real', 'edge') else p.make(()) for p in op.inputs]
  if op.group == 'layer' or op.name == 'ExponentialBasis':
    mod = s.module
    s.module = lambda n, **kw: mod(n, param_dtype=D, **kw)
    lib.PARAM_CALL_INIT[0] = True
  watch = None
  try:
    if dt == 'float64':
      with Watch({'float32', 'float16', 'bfloat16'}) as watch:
        r = op.call(s, *xs)
    elif dt == 'float32':
      with Watch({'float16', 'bfloat16'}) as watch:
        r = op.call(s, *xs)
    else:
      r = op.call(s, *xs)
  finally:
    A.X64[0] = x64
  r = catalog.results(r)
  fl = floats(r)
  isx = any(p.kind in ('real', 'edge') for p in op.inputs)
  for y in fl:
    if isx or op.group == 'layer':
      if not wider(y.dtype, D):
        return [f'{op.name}: {dt} inputs give a {y.dtype.name} result']
      if exact_group(op) and y.dtype.name != dt:
        return [f'{op.name}: {dt} inputs give a {y.dtype.name} result' + (' in 64-bit mode' if x64 else '')]
  if watch is not None and watch.hits and (isx or op.group == 'layer'):
    n, loc = watch.hits[0]
    return [run.Finding('double-throughout' if dt == 'float64' else 'no-detour', f'{op.name} {dt}', f'{op.name}: with {dt} inputs a value is held in {n}', str(loc))]
  return dict(problems=[], facts=len(fl) + 1)


EXACT = ('Embed', 'Dense', 'SelfAttention', 'MultiHeadAttention')


def layer(i, th, dt, dtype, param, x64):
  A.X64[0] = x64
  op = catalog.operations(th)[i]
  s = catalog.session()
  run.WORLDS.append(s.w)
  A.reset_events()
  D = A.todtype(dt)
  xs = [p.make((), D) if p.kind in ('real', 'edge') else p.make(()) for p in op.inputs]
  mod = s.module
  kw0 = {}
  if dtype:
    kw0['dtype'] = A.todtype(dtype)
  if param:
    kw0['param_dtype'] = A.todtype(param)
  names = []

  def module(n, **kw):
    names.append(n)
    return mod(n, **kw0, **kw)
  s.module = module
  lib.PARAM_CALL_INIT[0] = True
  r = catalog.results(op.call(s, *xs))
  P = A.todtype(param or 'float32')
  facts = 0
  ps = A.events().params
  for q in ps:
    path, d = q['path'], q['dtype']
    facts += 1
    if d is not None and d.name != P.name:
      return [run.Finding('param-type', op.name, f'{op.name} with param_dtype={param}: parameter {path} has dtype {d.name} instead of {P.name}')]
  if not facts:
    raise Unsupported('no parameters were recorded')
  base = names[0].split('.')[-1]
  isx = any(p.kind in ('real', 'edge') for p in op.inputs)
  want = A.todtype(dtype) if dtype else (A.promote2(D, False, P, False)[0] if isx else P)
  for y in floats(r):
    facts += 1
    if not wider(y.dtype, want) or (base in EXACT and (dtype or base in ('Dense', 'Embed')) and y.dtype.name != want.name):
      return [f'{op.name}(dtype={dtype}, param_dtype={param}) on {dt} inputs returns {y.dtype.name} instead of {want.name}' +
              (' in 64-bit mode' if x64 else '')]
    # a half-precision request is widened by coupling tables at most to the table type
    top = 'float64' if x64 else 'float32'
    if y.dtype.name not in (want.name, top):
      return [f'{op.name}(dtype={dtype}, param_dtype={param}) on {dt} inputs returns {y.dtype.name} instead of {want.name}']
  return dict(problems=[], facts=facts)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  modes = [('float16', False), ('bfloat16', False), ('float32', False), ('float32', True), ('float64', True), ('float16', True)]
  for i, op in enumerate(catalog.operations(th)):
    for dt, x64 in modes:
      if op.cost >= 40 and dt == 'float16' and not th:
        continue
      rule = 'double-throughout' if dt == 'float64' else ('same-type' if exact_group(op) else 'not-narrower')
      obs.append(Ob(f'{op.name} {dt}{" x64" if x64 else ""}', operation, (i, th, dt, x64), rule, cost=op.cost))
    if op.group == 'layer':
      f32s = ('float16', 'bfloat16', 'float32')
      combos = [(a, b, c, False) for a in f32s for b in (None, *f32s) for c in (None, *f32s)]
      combos += [(a, b, c, True) for a in ('float32', 'float64') for b in (None, 'float32', 'float64', 'bfloat16') for c in (None, 'float64')]
      if op.cost >= 20 and not th:
        combos = [('float32', 'bfloat16', None, False), ('float32', None, 'float16', False), ('bfloat16', 'float32', 'bfloat16', False),
                  ('float16', None, 'float16', False), ('float32', 'float64', None, True), ('float64', None, 'float64', True), ('float64', 'float32', None, True)]
      for a, b, c, x in combos:
        obs.append(Ob(f'{op.name} on {a} dtype={b} param_dtype={c}{" x64" if x else ""}', layer, (i, th, a, b, c, x), 'layer-type', cost=op.cost))
  return obs
