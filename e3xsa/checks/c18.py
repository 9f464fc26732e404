"""C18: tensor initializers respect forbidden paths and fan scaling.

Each initializer is interpreted with random draws as labelled atoms (distribution, key,
position).  Rule 'paths': an element of the kernel is the constant zero exactly if its
coupling path is forbidden by parity or the triangle rule; otherwise it is a constant
multiple of its own draw (no draw is used twice), the draw descends from the given key
only, has zero mean, and the variance that follows from the multiplier and the
distribution is scale / fan, where fan counts the allowed paths into the output block
(fan_in), out of the pair of input blocks (fan_out) or their mean (fan_avg).  The result
has the requested shape and dtype.  Rule 'layers': tensor layers hand the shape of their
kernel to the initializer, and no coupling path that symmetry allows starts at a constant.
"""

import itertools
import math

import numpy as np

from .. import arr as A
from .. import elem
from .. import lib
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..run import Obligation as Ob

STD_TN = 0.87962566103423978       # standard normal truncated to (-2, 2)
STD_CTN = 0.95311164380491208      # complex standard normal truncated to 2

NAMED = {
    'tensor_glorot_uniform': (1.0, 'fan_avg', 'uniform'), 'tensor_xavier_uniform': (1.0, 'fan_avg', 'uniform'),
    'tensor_glorot_normal': (1.0, 'fan_avg', 'truncated_normal'), 'tensor_xavier_normal': (1.0, 'fan_avg', 'truncated_normal'),
    'tensor_lecun_uniform': (1.0, 'fan_in', 'uniform'), 'tensor_lecun_normal': (1.0, 'fan_in', 'truncated_normal'),
    'tensor_he_uniform': (2.0, 'fan_in', 'uniform'), 'tensor_kaiming_uniform': (2.0, 'fan_in', 'uniform'),
    'tensor_he_normal': (2.0, 'fan_in', 'truncated_normal'), 'tensor_kaiming_normal': (2.0, 'fan_in', 'truncated_normal'),
}


def cls(P, p, l):
  return l % 2 if P == 1 else p


def allowed(sh, ix):
  p1, l1, p2, l2, p3, l3 = ix[:6]
  d = [cls(sh[0], p1, l1), cls(sh[2], p2, l2), cls(sh[4], p3, l3)]
  return (d[0] + d[1]) % 2 == d[2] and abs(l1 - l2) <= l3 <= l1 + l2


def fans(sh, mode):
  ok = np.zeros(sh[:6], dtype=float)
  for ix in np.ndindex(*sh[:6]):
    ok[ix] = allowed(sh, ix)
  fin = ok.sum(axis=(0, 1, 2, 3), keepdims=True) + 0 * ok
  fout = ok.sum(axis=(4, 5), keepdims=True) + 0 * ok
  return {'fan_in': fin, 'fan_out': fout, 'fan_avg': (fin + fout) / 2}[mode], ok


def unscaled(v):
  """(factor, rng atom, offset) of an affine function of one draw; None if it is not one."""
  if not isinstance(v, poly.Poly):
    return None
  at = v.atoms()
  if len(at) != 1 or at[0].kind != 'rng':
    return None
  c, off = 0, 0
  for m, k in v.d.items():
    if m == ():
      off = k
    elif len(m) == 1:
      c = k
    else:
      return None
  return c, at[0], off


def spread(atom):
  """(distribution class, mean, standard deviation) of an unscaled draw."""
  dist, _, _, dt, extra, _ = atom.key[1]
  kw = dict(extra)
  try:
    num = lambda k, d: float(eval(kw[k], {'__builtins__': {}})) if k in kw else d
    if dist == 'normal':
      return 'normal', 0.0, 1.0
    if dist == 'truncated_normal':
      lo, hi = num('lower', -2), num('upper', 2)
      if (lo, hi) == (-2, 2):
        return 'truncated_normal', 0.0, STD_TN
    if dist == 'uniform':
      lo, hi = num('minval', 0.0), num('maxval', 1.0)
      return 'uniform', (lo + hi) / 2, (hi - lo) / math.sqrt(12)
    if dist == 'complex_truncated_normal' and num('upper', None) == 2:
      return 'truncated_normal', 0.0, STD_CTN
    if dist == 'complex_uniform':
      return 'uniform', 0.0, 1.0
  except Exception:
    pass
  raise Unsupported(f'moments of a draw from {dist} {extra}')


def root_key(ident):
  while isinstance(ident, tuple) and len(ident) > 1 and ident[0] in ('split', 'fold_in', 'fold'):
    ident = ident[1]
  return ident


def judge(what, got, sh, dtype, var, ok, dist, key):
  """var, ok: arrays over sh (without / with the feature axis broadcast)."""
  if tuple(got.shape) != tuple(sh):
    return [f'{what}: shape {tuple(got.shape)} instead of {tuple(sh)}'], 0
  if got.dtype != A.canon(A.todtype(dtype)):
    return [f'{what}: dtype {got.dtype.name} instead of {A.canon(A.todtype(dtype)).name}'], 0
  seen = {}
  n = 0
  low = A.todtype(dtype).name in ('bfloat16', 'float16')
  for ix in np.ndindex(*sh):
    v = got.a[ix]
    n += 1
    if not ok[ix]:
      if elem.is_abs(v) or v != 0:
        return [f'{what}: forbidden element {list(ix)} is {v} instead of 0'], n
      continue
    if not elem.is_abs(v):
      return [f'{what}: allowed element {list(ix)} is the constant {v}'], n
    u = unscaled(v)
    if u is None:
      raise Unsupported(f'{what}: element {list(ix)} = {v} is not a scaled draw')
    c, at, off = u
    if at in seen:
      return [f'{what}: elements {list(seen[at])} and {list(ix)} share one draw'], n
    seen[at] = ix
    if root_key(at.key[1][1]) != key:
      return [f'{what}: element {list(ix)} is drawn with key {at.key[1][1]}'], n
    d, mean, std = spread(at)
    if dist is not None and d != dist:
      return [f'{what}: drawn from {d} instead of {dist}'], n
    if abs(mean * c + off) > 1e-6:
      return [f'{what}: element {list(ix)} has mean {mean * c + off:.6g}'], n
    g = abs(c) ** 2 * std ** 2
    if abs(g - var[ix]) > (2e-2 if low else 1e-5) * var[ix]:
      return [f'{what}: element {list(ix)} has variance {g:.8g} instead of {var[ix]:.8g}'], n
  return None, n


def full(v, sh):
  return np.broadcast_to(v[..., None], sh) if v.ndim < len(sh) else np.broadcast_to(v, sh)


def session():
  s = rep.Session(fold=False)
  run.WORLDS.append(s.w)
  return s


def named(name, sh, dtype, x64, how):
  A.X64[0] = x64
  s = session()
  scale, mode, dist = NAMED[name]
  mk = s.get('e3x.nn.initializers.' + name)
  dt = A.todtype(dtype)
  k = lib.KeyV('k')
  if how == 'call':
    got = mk()(k, sh, dt)
  elif how == 'factory':
    got = mk(dtype=dt)(k, sh)
  else:
    got = mk(dtype=A.todtype('float32'))(key=k, shape=sh, dtype=dt)
  f, ok = fans(sh, mode)
  var = scale / np.where(f > 0, f, 1)
  m, n = judge(f'{name} shape {sh} dtype {dtype} ({how})', A.asarr(got), sh, dtype, full(var, sh), full(ok > 0, sh), dist, 'k')
  return dict(problems=m or [], facts=n)


def scaled(sh, scale, mode, dist, dtype):
  s = session()
  init = s.get('e3x.nn.initializers.tensor_variance_scaling')(scale, mode, dist)
  f, ok = fans(sh, mode)
  var = scale / np.where(f > 0, f, 1)
  n = 0
  for key in ('k', 'other'):
    got = A.asarr(init(lib.KeyV(key), sh, A.todtype(dtype)))
    m, c = judge(f'tensor_variance_scaling({scale}, {mode}, {dist}) shape {sh} dtype {dtype} key {key}', got, sh, dtype, full(var, sh), full(ok > 0, sh), dist, key)
    n += c
    if m:
      return m
  again = A.asarr(init(lib.KeyV('k'), sh, A.todtype(dtype)))
  first = A.asarr(s.get('e3x.nn.initializers.tensor_variance_scaling')(scale, mode, dist)(lib.KeyV('k'), sh, A.todtype(dtype)))
  for ix in np.ndindex(*sh):
    if poly.akey(again.a[ix]) != poly.akey(first.a[ix]):
      return [f'tensor_variance_scaling({scale}, {mode}, {dist}) shape {sh}: element {list(ix)} differs between two calls with the same key']
  return dict(problems=[], facts=n)


def fused(name, L, F, scale, mask, dtype):
  s = session()
  mk = s.get('e3x.nn.initializers.' + name)
  sh = (L + 1, F)
  sc = np.full(sh, 1.0)
  ok = np.full(sh, True)
  kw = {}
  if scale == 'float':
    kw['scale'] = 0.3
    sc = sc * 0.3
  elif scale == 'array':
    col = np.array([0.5 + l for l in range(L + 1)]).reshape(-1, 1)
    o = np.empty(col.shape, dtype=object)
    for ix in np.ndindex(*col.shape):
      o[ix] = float(col[ix])
    kw['scale'] = A.Arr(o, A.F32, False, False)
    sc = sc * col
  if mask == 'even' or mask == 'odd':
    col = np.array([(l % 2 == 0) == (mask == 'even') for l in range(L + 1)]).reshape(-1, 1)
    o = np.empty(col.shape, dtype=object)
    for ix in np.ndindex(*col.shape):
      o[ix] = bool(col[ix])
    kw['mask'] = A.Arr(o, A.BOOL, False, False)
    ok = ok & col
  elif mask is not None:
    kw['mask'] = mask
    ok = ok & mask
  got = A.asarr(mk(**kw)(lib.KeyV('k'), sh, A.todtype(dtype)))
  dist = 'uniform' if name.endswith('uniform') else 'truncated_normal'
  m, n = judge(f'{name}(scale={scale}, mask={mask}) shape {sh} dtype {dtype}', got, sh, dtype, sc, ok, dist, 'k')
  return dict(problems=m or [], facts=n)


# ------------------------------------------------------------------------------ layers
def layer(cls_, P1, L1, P2, L2, F, kw):
  """Initial parameters of a tensor layer."""
  s = session()
  s.hook_tables()
  lib.PARAM_CALL_INIT[0] = True
  x = rep.features('x', (1,), P1, L1, F)
  y = rep.features('y', (1,), P2, L2, F)
  s.module(f'e3x.nn.{cls_}', **kw)(x, y)
  ps = {p['path'].split('/')[-1]: p for p in A.events().params}
  L3 = kw.get('max_degree', max(L1, L2))
  pseudo = kw.get('include_pseudotensors', True)
  if P1 == P2 == 1 and 0 in (L1, L2, L3):
    pseudo = False
  P3 = 2 if pseudo else 1
  what = f'{cls_}{kw} on {P1}x{L1} and {P2}x{L2}'
  dtype = kw.get('param_dtype', A.todtype('float32')).name
  out = []
  sh = (P1, L1 + 1, P2, L2 + 1, P3, L3 + 1, F)
  n = 0
  if cls_ == 'Tensor':
    p = ps.get('kernel')
    if p is None or len(ps) != 1:
      raise Unsupported(f'{what}: parameters {sorted(ps)}')
    if tuple(p['shape']) != sh:
      raise Unsupported(f'{what}: kernel of shape {p["shape"]}')
    f, ok = fans(sh, 'fan_in')
    m, n = judge(f'{what}: initial kernel', p['value'], sh, dtype, full(1 / np.where(f > 0, f, 1), sh), full(ok > 0, sh), 'truncated_normal', ('param', p['path']))
    return dict(problems=m or [], facts=n)
  want = {k: (L1 if k[-1] == '1' else L2 if k[-1] == '2' else L3) for k in
          ('kernel_e1', 'kernel_o1', 'kernel_e2', 'kernel_o2', 'kernel_eee', 'kernel_ooe', 'kernel_eoo', 'kernel_oeo')}
  if set(want) != set(ps):
    raise Unsupported(f'{what}: parameters {sorted(ps)}')
  for k, L in want.items():
    v = ps[k]['value']
    if tuple(v.shape) != (L + 1, F):
      raise Unsupported(f'{what}: {k} of shape {v.shape}')
    if v.dtype.name != dtype:
      out.append(f'{what}: initial {k} has dtype {v.dtype.name} instead of {dtype}')
    for l, f in np.ndindex(L + 1, F):
      n += 1
      e = v.a[l, f]
      const = not elem.is_abs(e)
      if k[-1] in '12':
        P = P1 if k[-1] == '1' else P2
        live = P == 2 or l % 2 == 'eo'.index(k[-2])
        if not live and (not const or e != 0):
          out.append(f'{what}: initial {k}[{l}, {f}] is {e} although {"even" if k[-2] == "e" else "odd"} features of degree {l} do not exist')
      else:
        a, b, c = ('eo'.index(t) for t in k[-3:])
        ab = itertools.product(range(L1 + 1), range(L2 + 1))
        live = (pseudo or l % 2 == c) and any(
            abs(l1 - l2) <= l <= l1 + l2 and (P1 == 2 or l1 % 2 == a) and (P2 == 2 or l2 % 2 == b) for l1, l2 in ab)
      if live and const:
        out.append(f'{what}: initial {k}[{l}, {f}] of an allowed coupling is the constant {e}')
      if not const:
        u = unscaled(e)
        if u is None:
          raise Unsupported(f'{what}: {k}[{l}, {f}] = {e} is not a scaled draw')
        if u[0] == 0 or abs(u[2]) > 0:
          out.append(f'{what}: {k}[{l}, {f}] = {e}')
      if out:
        return out
  return dict(problems=out, facts=n)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  pars = list(itertools.product((1, 2), repeat=3))
  degs = [(1, 1, 1), (2, 1, 2), (1, 3, 2), (3, 3, 3), (2, 3, 4), (4, 2, 3), (1, 1, 3), (3, 2, 1)]
  if th:
    degs = list(itertools.product(range(1, 5), repeat=3)) + [(5, 5, 5), (6, 4, 5), (3, 7, 6)]
  mined = [m for m in run.mined_ints(3, 9, files=('nn/initializers.py',))]
  degs += [(m, 2, m) for m in mined if (m, 2, m) not in degs] + [(2, m, 3) for m in mined]
  shapes = [(P[0], d[0], P[1], d[1], P[2], d[2], 1 + (i + j) % 2 * 2) for i, P in enumerate(pars) for j, d in enumerate(degs)]
  DT = ['float32', 'complex64', 'float64', 'bfloat16', 'float16']
  names = list(NAMED)
  for i, sh in enumerate(shapes):
    c = int(np.prod(sh))
    for j in range(len(names) if th and c < 500 else 2):
      nm = names[(i + 5 * j) % 10] if j < 2 else names[j]
      dt = DT[(i + j) % 5]
      obs.append(Ob(f'{nm} {sh} {dt}', named, (nm, sh, dt, dt == 'float64', ('call', 'factory', 'keyword')[i % 3]), 'paths', cost=1 + c / 300))
    m = ('fan_in', 'fan_out', 'fan_avg')[i % 3]
    d = ('truncated_normal', 'normal', 'uniform')[(i // 3) % 3]
    if not th and c > 200 and i % 2:
      continue
    obs.append(Ob(f'variance_scaling {sh} {m} {d}', scaled, (sh, (1.0, 2.0, 0.37)[(i // 2) % 3], m, d, DT[i % 2]), 'paths', cost=1 + c / 100))
  for m in ('fan_in', 'fan_out', 'fan_avg'):
    for d in ('truncated_normal', 'normal', 'uniform'):
      for dt in ('float32', 'complex64'):
        obs.append(Ob(f'variance_scaling {m} {d} {dt}', scaled, ((2, 3, 1, 2, 2, 3, 2), 1.7, m, d, dt), 'paths', cost=2))
  for nm in names:
    for dt in DT[:4]:
      obs.append(Ob(f'{nm} {dt}', named, (nm, (1, 3, 2, 2, 2, 3, 2), dt, dt == 'float64', 'call'), 'paths'))
  for nm in ('fused_tensor_normal', 'fused_tensor_uniform'):
    for sc in (None, 'float', 'array'):
      for mask in (None, True, False, 'even', 'odd'):
        obs.append(Ob(f'{nm} {sc} {mask}', fused, (nm, 3, 2, sc, mask, 'complex64' if sc == 'float' and mask is None else 'float32'), 'fused'))
  for cl in ('Tensor', 'FusedTensor'):
    for P1, P2 in itertools.product((1, 2), repeat=2):
      for i, (L1, L2, L3) in enumerate([(0, 0, None), (1, 1, None), (2, 1, None), (1, 2, 3), (0, 2, None), (2, 0, 1), (2, 2, 0), (3, 2, 2), (2, 2, 4)] + ([(3, 3, 6), (4, 3, 2), (0, 4, 3)] if th else [])):
        for ps in (True, False):
          kw = dict(include_pseudotensors=ps)
          if L3 is not None:
            kw['max_degree'] = L3
          if i % 3 == 1:
            kw['param_dtype'] = A.todtype('bfloat16')
          obs.append(Ob(f'{cl} {P1} {L1} {P2} {L2} {L3} {ps}', layer, (cl, P1, L1, P2, L2, 2, kw), 'layers', cost=2 + (L1 + 1) * (L2 + 1)))
  return obs
