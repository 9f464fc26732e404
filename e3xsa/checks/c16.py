"""C16: malformed requests are rejected with the documented exception.

Malformed contexts (at and around the boundary of the documented domain) are propagated
through the source.  Every path must end in an explicit raise of the documented type; a
normal return, or an explicit raise of another type, is a violation.  Neighbouring valid
contexts must be accepted.
"""

import itertools

import numpy as np

from .. import arr as A
from .. import catalog
from .. import lib
from .. import poly
from .. import rep
from .. import run
from .. import tables
from ..errors import EngineError, ModelError, Unsupported
from ..run import Obligation as Ob


def R(*shape, dtype='float32'):
  a = np.empty(shape, dtype=object)
  for ix in np.ndindex(*shape):
    a[ix] = poly.var('in', ('r', shape, ix), deps=frozenset(['r']), name=f'r{list(ix)}')
  return A.Arr(A._obj(a), A.todtype(dtype), False, True)


def Z(*shape, n=2):
  a = np.empty(shape, dtype=object)
  for i, ix in enumerate(np.ndindex(*shape)):
    a[ix] = i % n
  return A.Arr(A._obj(a), A.I32, False, True)


def B(*shape):
  a = np.empty(shape, dtype=object)
  for ix in np.ndindex(*shape):
    a[ix] = True
  return A.Arr(A._obj(a), A.BOOL, False, True)


def C(*shape):
  return A.Arr(A._full(shape, 1j), A.todtype('complex64'), False, True)


def probe(name, cases):
  """cases: list of (description, call(s), expected exception types or None)."""
  s = catalog.session()
  run.WORLDS.append(s.w)
  out, facts, und = [], 0, []
  for d, fn, exc in cases:
    A.events().params.clear()
    A.STAGED[0] = False
    facts += 1
    try:
      fn(s)
      got = None
    except EngineError as e:
      und.append(f'{d}: {e}')
      continue
    except ModelError as e:
      # a library call fails: rejected, but the type is that of the library
      if exc is None:
        out.append(run.Finding('valid-rejected', f'{name} {d}', f'{name}: valid request {d} makes a library call fail: {str(e)[:150]}', str(poly.LOC[0])))
      else:
        und.append(f'{d}: rejected by a library call: {e}')
      continue
    except Exception as e:
      got = e
    loc = str(getattr(got, 'e3x_loc', None) or poly.LOC[0])
    if exc is None:
      if got is not None:
        out.append(run.Finding('valid-rejected', f'{name} {d}', f'{name}: valid request {d} is rejected: {type(got).__name__}: {str(got)[:150]}', loc))
      continue
    if got is None:
      out.append(run.Finding('accepted', f'{name} {d}', f'{name}: malformed request {d} is accepted', loc))
    elif not isinstance(got, exc):
      out.append(run.Finding('exception-type', f'{name} {d}', f'{name}: malformed request {d} raises {type(got).__name__}: {str(got)[:120]} instead of {"/".join(x.__name__ for x in (exc if isinstance(exc, tuple) else (exc,)))}', loc))
  if not out and und:
    if len(und) == len(cases):
      raise Unsupported('; '.join(und[:3]))
  return dict(problems=out[:6], facts=facts - len(und))


VE, TE, RE = ValueError, TypeError, RuntimeError


# ------------------------------------------------------------------ functions
def num_cases():
  out = {}
  for base, pre in itertools.product(('bernstein', 'chebyshev', 'fourier', 'gaussian'), ('basic', 'reciprocal', 'exponential')):
    n = f'{pre}_{base}'
    limits = [{}]
    if pre == 'basic' and base != 'gaussian':
      limits = [dict(limit=2.0)]
    elif pre == 'basic':
      limits = [dict(limit=2.0), {}]
    cs = []
    for kw, shape, num in itertools.product(limits, ((), (2,), (0,)), (0, -1, -7, 1, 2)):
      f = lambda s, n=n, kw=kw, shape=shape, num=num: s.get('e3x.nn.' + n)(R(*shape), num=num, **kw)
      cs.append((f'num={num} shape={shape} {kw}', f, VE if num < 1 else None))
    if pre == 'reciprocal':
      for k in ('', 'shift', 'Damped', None, 'damped2'):
        cs.append((f'kind={k!r}', lambda s, n=n, k=k: s.get('e3x.nn.' + n)(R(), num=2, kind=k), VE))
      for k in ('shifted', 'damped', 'cuspless'):
        cs.append((f'kind={k!r}', lambda s, n=n, k=k: s.get('e3x.nn.' + n)(R(), num=2, kind=k), None))
    out[n] = cs
  return out


def scalar_cases():
  out = {}
  for n in ('smooth_cutoff', 'cosine_cutoff'):
    cs = []
    for shape in ((), (3,), (0,)):
      for c in (0, 0.0, -0.0, -1, -1e-9, -1e30, float('-inf')):
        cs.append((f'cutoff={c} shape={shape}', lambda s, n=n, c=c, shape=shape: s.get('e3x.nn.' + n)(R(*shape), cutoff=c), VE))
        cs.append((f'cutoff={c} positional shape={shape}', lambda s, n=n, c=c, shape=shape: s.get('e3x.nn.' + n)(R(*shape), c), VE))
      for c in (1e-6, 0.5, 1, 1.0, 2, 100.0):
        cs.append((f'cutoff={c} shape={shape}', lambda s, n=n, c=c, shape=shape: s.get('e3x.nn.' + n)(R(*shape), cutoff=c), None))
      cs.append((f'default shape={shape}', lambda s, n=n, shape=shape: s.get('e3x.nn.' + n)(R(*shape)), None))
    out[n] = cs
  cs = []
  for shape in ((), (3,)):
    for a, b in ((0, 0), (0.0, 0.0), (1, 0), (1.0, 1.0), (2, 1.9999), (-1, -1), (-1, -2), (0, -1e-9), (1, -1), (5.0, 0.5)):
      cs.append((f'x0={a} x1={b} shape={shape}', lambda s, a=a, b=b, shape=shape: s.get('e3x.nn.smooth_switch')(R(*shape), x0=a, x1=b), VE))
    cs.append((f'x0=1 shape={shape}', lambda s, shape=shape: s.get('e3x.nn.smooth_switch')(R(*shape), x0=1.0), VE))
    cs.append((f'x1=0 shape={shape}', lambda s, shape=shape: s.get('e3x.nn.smooth_switch')(R(*shape), x1=0.0), VE))
    for a, b in ((0, 1), (0.5, 1), (-1, 0), (-2, -1), (1, 1.0001)):
      cs.append((f'x0={a} x1={b} shape={shape}', lambda s, a=a, b=b, shape=shape: s.get('e3x.nn.smooth_switch')(R(*shape), x0=a, x1=b), None))
  out['smooth_switch'] = cs
  cs = [(f'kind={k!r}', lambda s, k=k: s.get('e3x.nn.reciprocal_mapping')(R(2), kind=k), VE) for k in ('', 'shift', 'Shifted', None, 'cusp', 0)]
  cs += [(f'kind={k!r}', lambda s, k=k: s.get('e3x.nn.reciprocal_mapping')(R(2), kind=k), None) for k in ('shifted', 'damped', 'cuspless')]
  out['reciprocal_mapping'] = cs
  def ed(s, m, sh):
    return s.get('e3x.ops.evaluate_derivatives')(lambda v: v * v, R(*sh), max_order=m)
  cs = [(f'max_order={m} {sh}', lambda s, m=m, sh=sh: ed(s, m, sh), VE if m < 0 else None) for m in (-1, -2, -10, 0, 1, 2) for sh in ((), (2,))]
  out['evaluate_derivatives'] = cs
  return out


ACTIVATIONS = ('bent_identity', 'celu', 'elu', 'gelu', 'hard_silu', 'hard_swish', 'hard_tanh', 'leaky_relu', 'mish', 'relu', 'relu6', 'selu', 'serf',
               'shifted_softplus', 'silu', 'soft_sign', 'swish')


def act_cases():
  out = {}
  for n in ACTIVATIONS:
    cs = [(f'shape={sh}', lambda s, n=n, sh=sh: s.get('e3x.nn.' + n)(R(*sh)), VE) for sh in ((), (1,), (3,), (1, 1), (4, 2), (1, 3))]
    cs += [(f'shape={sh}', lambda s, n=n, sh=sh: s.get('e3x.nn.' + n)(R(*sh)), None) for sh in ((1, 1, 1), (2, 4, 2), (3, 1, 4, 2))]
    out[n] = cs
  return out


# ------------------------------------------------------------------- features
BAD_FEATURES = [(), (3,), (4, 2), (1, 4), (0, 4, 2), (3, 4, 2), (4, 4, 2), (1, 0, 2), (1, 2, 2), (1, 3, 2), (2, 5, 2), (1, 8, 2), (1, 10, 1), (2, 15, 1), (1, 17, 1),
                (1, 24, 1), (3, 1, 2), (5, 1, 3, 2), (2, 0, 1, 2), (2, 3, 4, 1), (4, 1, 5, 2), (2, 2, 7, 2), (1, 35, 1), (1, 37, 1), (2, 48, 1), (1, 50, 1), (1, 63, 1), (1, 99, 1), (1, 101, 1)]
GOOD_FEATURES = [(1, 1, 1), (2, 1, 1), (1, 4, 2), (2, 9, 1), (1, 16, 1), (3, 1, 4, 2), (0, 2, 4, 2), (2, 3, 1, 1, 1), (1, 4, 0), (1, 25, 1), (1, 36, 1), (1, 49, 1), (1, 64, 1)]


def feature_cases():
  out = {}

  def ident(s, sh):
    dim = sh[-2] if len(sh) > 1 else 1
    return R(dim, dim)
  fns = {
      'change_max_degree_or_type': lambda s, x: s.get('e3x.nn.change_max_degree_or_type')(x),
      'change_max_degree_or_type to 1': lambda s, x: s.get('e3x.nn.change_max_degree_or_type')(x, max_degree=1, include_pseudotensors=True),
      'reflect': lambda s, x: s.get('e3x.nn.reflect')(x),
      'rotate': lambda s, x: s.get('e3x.nn.rotate')(x, R(*(2 * (x.shape[-2:-1] or (1,))))),
      'Dense': lambda s, x: s.module('e3x.nn.Dense', features=2)(x),
      'add': lambda s, x: s.get('e3x.nn.add')(x),
  }
  for n, f in fns.items():
    cs = []
    for sh in BAD_FEATURES:
      if n == 'Dense' and max(sh or (0,)) > 20:
        continue
      cs.append((f'shape={sh}', lambda s, f=f, sh=sh: f(s, R(*sh)), VE))
    for sh in GOOD_FEATURES:
      if n == 'Dense' and (max(sh) > 16 or 0 in sh):
        continue
      cs.append((f'shape={sh}', lambda s, f=f, sh=sh: f(s, R(*sh)), None))
    out['features: ' + n] = cs
  for m in ('Tensor', 'FusedTensor'):
    cs = []
    small = [sh for sh in BAD_FEATURES if len(sh) >= 3 and max(sh) < 6 or len(sh) in (1, 2)]
    for sh in small:
      ok = (1, 4, sh[-1])
      lead = sh[:-3]
      okb = (*lead, *ok)
      cs.append((f'first shape={sh}', lambda s, m=m, sh=sh, o=okb: s.module('e3x.nn.' + m, max_degree=1)(R(*sh), R(*o)), VE))
      cs.append((f'second shape={sh}', lambda s, m=m, sh=sh, o=okb: s.module('e3x.nn.' + m, max_degree=1)(R(*o), R(*sh)), VE))
    for (a, b), d in itertools.product(((0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0)), range(0, 5)):
      for P, Q, ps in ((1, 1, True), (2, 1, True), (2, 2, True), (1, 1, False)):
        if d <= a + b and (P, Q) != (1, 1):
          continue
        cs.append((f'max_degree={d} of {a},{b} parity {P},{Q} pseudo={ps}', lambda s, m=m, a=a, b=b, d=d, P=P, Q=Q, ps=ps: s.module('e3x.nn.' + m, max_degree=d, include_pseudotensors=ps)(R(P, (a + 1)**2, 1), R(Q, (b + 1)**2, 1)), VE if d > a + b else None))
    for lead in ((), (2,)):
      for f, g in ((1, 2), (2, 1), (3, 2), (2, 4), (4, 2), (2, 2), (1, 1)):
        for P, Q in ((1, 1), (2, 1)):
          cs.append((f'features {f},{g} lead={lead} parity {P},{Q}', lambda s, m=m, f=f, g=g, lead=lead, P=P, Q=Q: s.module('e3x.nn.' + m, max_degree=0)(R(*lead, P, 1, f), R(*lead, Q, 1, g)), VE if f != g else None))
    out[m] = cs
  # TensorDense: degree bound
  cs = []
  for fused in (True, False):
    for a, d in itertools.product((0, 1), range(5)):
      cs.append((f'fused={fused} max_degree={d} of {a}', lambda s, fused=fused, a=a, d=d: s.module('e3x.nn.TensorDense', max_degree=d, use_fused_tensor=fused, features=1)(R(1, (a + 1)**2, 1)), VE if d > 2 * a else None))
  out['TensorDense'] = cs
  # rotate: matrix shapes
  cs = []
  for P, L, lead in itertools.product((1, 2), (0, 1, 2), ((), (2,), (2, 3))):
    n = (L + 1) ** 2
    x = (*lead, P, n, 2)
    for w in ((n,), (n - 1, n), (n, n + 1), (n + 1, n + 1), (n - 1, n - 1), (3, 3), (2 * L + 1,) * 2, (1, n), (n, 1)):
      if w != (n, n):
        cs.append((f'x={x} D={w}', lambda s, x=x, w=w: s.get('e3x.nn.rotate')(R(*x), R(*w)), VE))
        if lead:
          cs.append((f'x={x} D={(*lead, *w)}', lambda s, x=x, w=w, lead=lead: s.get('e3x.nn.rotate')(R(*x), R(*lead, *w)), VE))
    for wl in ((1,), (2,), (3,), (2, 3), (3, 2), (2, 1), (1, 3), (1, 2, 3)):
      ok = wl == lead
      cs.append((f'x={x} D={(*wl, n, n)}', lambda s, x=x, n=n, wl=wl: s.get('e3x.nn.rotate')(R(*x), R(*wl, n, n)), None if ok else VE))
    cs.append((f'x={x} D={(n, n)}', lambda s, x=x, n=n: s.get('e3x.nn.rotate')(R(*x), R(n, n)), None))
  out['rotate matrices'] = cs
  # add
  cs = []
  base = (2, 1, 4, 2)
  bads = [(2,), (4, 2), (1, 4, 2), (3, 1, 4, 2), (1, 1, 4, 2), (2, 1, 4, 1), (2, 1, 4, 3), (2, 3, 4, 2), (2, 1, 3, 2), (2, 1, 2, 2), (2, 2, 5, 2), (2, 2, 1, 4, 2), (2, 0, 4, 2), (2, 1, 0, 2)]
  for b in bads:
    for pos in range(3):
      for other in ((2, 1, 4, 2), (2, 2, 1, 2)):
        args = [other] * 3
        args[pos] = b
        if pos == 0 and len(b) >= 3 and b[-3] in (1, 2) and round(b[-2] ** .5) ** 2 == b[-2] and b[-2] and b[:-3] == base[:-3] and b[-1] == 2:
          continue
        cs.append((f'shapes {args}', lambda s, args=args: s.get('e3x.nn.add')(*(R(*a) for a in args)), VE))
  for pos in range(3):
    for dt, ot in (('float16', 'float32'), ('float32', 'float16'), ('bfloat16', 'float16'), ('int32', 'float32')):
      d = [ot] * 3
      d[pos] = dt
      cs.append((f'dtypes {d}', lambda s, d=d: s.get('e3x.nn.add')(*(R(1, 4, 2, dtype=q) for q in d)), VE))
  for args in ([(1, 4, 2)] * 2, [(1, 1, 2), (2, 4, 2), (1, 9, 2)], [(2, 2, 1, 2), (2, 1, 4, 2)], [(1, 1, 1)]):
    cs.append((f'shapes {args}', lambda s, args=args: s.get('e3x.nn.add')(*(R(*a) for a in args)), None))
  out['add'] = cs
  # Embed
  cs = []
  for sh in ((), (2,), (2, 3)):
    for dt in ('float32', 'float16', 'bfloat16', 'bool', 'complex64'):
      x = lambda sh=sh, dt=dt: B(*sh) if dt == 'bool' else C(*sh) if dt == 'complex64' else R(*sh, dtype=dt)
      cs.append((f'{dt} {sh}', lambda s, x=x: s.module('e3x.nn.Embed', num_embeddings=3, features=2)(x()), VE))
    for dt in ('int32', 'uint8', 'int8', 'uint32'):
      def call(s, sh=sh, dt=dt):
        z = Z(*sh)
        return s.module('e3x.nn.Embed', num_embeddings=3, features=2)(A.Arr(z.a, A.todtype(dt), False, True))
      cs.append((f'{dt} {sh}', call, None))
  out['Embed'] = cs
  return out


# -------------------------------------------------------------------- indices
def index_cases():
  out = {}
  n, m, e = 3, 2, 4
  ADJ, DST, SRC, WH = lambda: Z(n, m, n=3), lambda: Z(e), lambda: Z(e, n=3), lambda: B(n, m)
  for f in ('indexed_sum', 'indexed_min', 'indexed_max', 'indexed_softmax'):
    cs = []

    def call(f, x, **kw):
      return lambda s: s.get('e3x.ops.' + f)(x(), **{k: v() if callable(v) else v for k, v in kw.items()})

    for kd in (False, True):
      k = {} if f == 'indexed_softmax' else dict(keepdims=kd)
      if f == 'indexed_softmax' and kd:
        continue
      for sh in ((), (2,)):
        xd, xs = (lambda sh=sh: R(n, m, *sh)), (lambda sh=sh: R(e, *sh))
        cs += [
            (f'no indices {sh} {kd}', call(f, xd, where=WH, **k), RE),
            (f'no indices, segments {sh} {kd}', call(f, xs, num_segments=n, **k), RE),
            (f'both adj and dst {sh} {kd}', call(f, xd, adj_idx=ADJ, dst_idx=DST, where=WH, num_segments=n, **k), RE),
            (f'both adj and dst, sparse inputs {sh} {kd}', call(f, xs, adj_idx=ADJ, dst_idx=DST, where=WH, num_segments=n, **k), RE),
            (f'dense without where {sh} {kd}', call(f, xd, adj_idx=ADJ, **k), TE),
            (f'sparse without num_segments {sh} {kd}', call(f, xs, dst_idx=DST, **k), TE),
            (f'dense with shifted shape {sh} {kd}', call(f, lambda sh=sh: R(n, m + 1, *sh), adj_idx=ADJ, where=WH, **k), VE),
            (f'dense with transposed shape {sh} {kd}', call(f, lambda sh=sh: R(m, n, *sh), adj_idx=ADJ, where=WH, **k), VE),
            (f'dense with other rows {sh} {kd}', call(f, lambda sh=sh: R(n + 1, m, *sh), adj_idx=ADJ, where=WH, **k), VE),
            (f'dense with one row {sh} {kd}', call(f, lambda sh=sh: R(1, m, *sh), adj_idx=ADJ, where=WH, **k), VE),
            (f'dense with extra leading axis {sh} {kd}', call(f, lambda sh=sh: R(2, n, m, *sh), adj_idx=ADJ, where=WH, **k), VE),
            (f'sparse with other size {sh} {kd}', call(f, lambda sh=sh: R(e + 1, *sh), dst_idx=DST, num_segments=n, **k), VE),
            (f'sparse with size 1 {sh} {kd}', call(f, lambda sh=sh: R(1, *sh), dst_idx=DST, num_segments=n, **k), VE),
            (f'sparse batch mismatch {sh} {kd}', call(f, lambda sh=sh: R(3, e, *sh), dst_idx=lambda: Z(2, e), num_segments=n, **k), VE),
            (f'dense batch mismatch {sh} {kd}', call(f, lambda sh=sh: R(3, n, m, *sh), adj_idx=lambda: Z(2, n, m, n=3), where=lambda: B(2, n, m), **k), VE),
            (f'dense ok {sh} {kd}', call(f, xd, adj_idx=ADJ, where=WH, **k), None),
            (f'sparse ok {sh} {kd}', call(f, xs, dst_idx=DST, num_segments=n, **k), None),
        ]
      cs += [
          (f'dense too few dimensions {kd}', call(f, lambda: R(n), adj_idx=ADJ, where=WH, **k), VE),
          (f'dense scalar {kd}', call(f, lambda: R(), adj_idx=ADJ, where=WH, **k), VE),
          (f'sparse scalar {kd}', call(f, lambda: R(), dst_idx=DST, num_segments=n, **k), VE),
          (f'sparse too few dimensions {kd}', call(f, lambda: R(2), dst_idx=lambda: Z(2, e), num_segments=n, **k), VE),
      ]
      types = [('bool', lambda: B(n, m), lambda: B(e)), ('complex', lambda: C(n, m), lambda: C(e))]
      if f == 'indexed_softmax':
        types += [('int', lambda: Z(n, m), lambda: Z(e))]
      for t, d, sp in types:
        # the docstrings name ValueError, the implementation of the reductions TypeError
        cs.append((f'dense {t} inputs {kd}', call(f, d, adj_idx=ADJ, where=WH, **k), VE if f == 'indexed_softmax' else (VE, TE)))
        cs.append((f'sparse {t} inputs {kd}', call(f, sp, dst_idx=DST, num_segments=n, **k), VE if f == 'indexed_softmax' else (VE, TE)))
      if f != 'indexed_softmax':
        cs.append((f'dense int inputs {kd}', call(f, lambda: Z(n, m), adj_idx=ADJ, where=WH, **k), None))
        cs.append((f'sparse int inputs {kd}', call(f, lambda: Z(e), dst_idx=DST, num_segments=n, **k), None))
    if f == 'indexed_softmax':
      for sh in ((), (2,)):
        for ms in ((), (1,), (m,), (n, 1), (1, m), (n, m, 1), (n, m, 3), (m, n), (n + 1, m)):
          if ms == (n, m, *sh):
            continue
          cs.append((f'mask {ms} dense {sh}', call(f, lambda sh=sh: R(n, m, *sh), multiplicative_mask=lambda ms=ms: R(*ms), adj_idx=ADJ, where=WH), VE))
        for ms in ((), (1,), (e + 1,), (e, 1), (1, e), (e, 3), (2,)):
          if ms == (e, *sh):
            continue
          cs.append((f'mask {ms} sparse {sh}', call(f, lambda sh=sh: R(e, *sh), multiplicative_mask=lambda ms=ms: R(*ms), dst_idx=DST, num_segments=n), VE))
        cs.append((f'mask ok dense {sh}', call(f, lambda sh=sh: R(n, m, *sh), multiplicative_mask=lambda sh=sh: R(n, m, *sh), adj_idx=ADJ, where=WH), None))
    out[f] = cs
  for f, sp in (('gather_src', 'src_idx'), ('gather_dst', 'dst_idx')):
    cs = []
    for sh in ((), (2,)):
      x = lambda sh=sh: R(n, *sh)
      cs += [
          (f'no indices {sh}', call(f, x), RE),
          (f'both {sh}', call(f, x, adj_idx=ADJ, **{sp: SRC}), RE),
          (f'sparse zero-dimensional index {sh}', call(f, x, **{sp: lambda: Z()}), VE),
          (f'sparse batch mismatch {sh}', call(f, lambda sh=sh: R(3, n, *sh), **{sp: lambda: Z(2, e, n=3)}), VE),
          (f'sparse batch of one against two {sh}', call(f, lambda sh=sh: R(1, n, *sh), **{sp: lambda: Z(2, e, n=3)}), VE),
          (f'sparse ok {sh}', call(f, x, **{sp: SRC}), None),
          (f'sparse batch ok {sh}', call(f, lambda sh=sh: R(2, n, *sh), **{sp: lambda: Z(2, e, n=3)}), None),
          (f'dense ok {sh}', call(f, x, adj_idx=ADJ), None),
      ]
      if f == 'gather_src':
        cs += [
            (f'dense one-dimensional index {sh}', call(f, x, adj_idx=lambda: Z(e)), VE),
            (f'dense zero-dimensional index {sh}', call(f, x, adj_idx=lambda: Z()), VE),
            (f'dense batch mismatch {sh}', call(f, lambda sh=sh: R(3, n, *sh), adj_idx=lambda: Z(2, n, m, n=3)), VE),
            (f'dense batch of one against two {sh}', call(f, lambda sh=sh: R(1, n, *sh), adj_idx=lambda: Z(2, n, m, n=3)), VE),
            (f'dense batch ok {sh}', call(f, lambda sh=sh: R(2, n, *sh), adj_idx=lambda: Z(2, n, m, n=3)), None),
        ]
    cs += [(f'sparse scalar inputs', call(f, lambda: R(), **{sp: SRC}), VE),
           (f'sparse too few dimensions', call(f, lambda: R(2), **{sp: lambda: Z(2, e)}), VE)]
    if f == 'gather_src':
      cs += [(f'dense scalar inputs', call(f, lambda: R(), adj_idx=ADJ), VE),
             (f'dense too few dimensions', call(f, lambda: R(2), adj_idx=lambda: Z(2, n, m)), VE)]
    out[f] = cs
  cs = []
  for g in ('dense_pairwise_indices', 'sparse_pairwise_indices'):
    for k in (0, -1, -5, 1, 2, 3):
      for ms in (True, False):
        cs.append((f'{g} num={k} mask_self={ms}', lambda s, g=g, k=k, ms=ms: s.get('e3x.ops.' + g)(k, mask_self=ms), VE if k < 1 else None))
  for sh in ((), (1,), (3,), (0,)):
    for p in (None, 3):
      cs.append((f'dense_to_sparse_indices {sh} {p}', lambda s, sh=sh, p=p: s.get('e3x.ops.dense_to_sparse_indices')(unt(Z(*sh)), pad_idx=p), VE))
  for a, b in (((3,), (4,)), ((2, 3), (3,)), ((2, 3), (2, 4)), ((2, 3), (3, 3)), ((0,), (1,)), ((1, 3), (3,)), ((2, 0), (3, 0)), ((0,), (0, 0))):
    for p in (None, 3):
      cs.append((f'sparse_to_dense_indices {a},{b} {p}', lambda s, a=a, b=b, p=p: s.get('e3x.ops.sparse_to_dense_indices')(unt(Z(*a)), unt(Z(*b)), pad_idx=p), VE))
  cs.append(('dense_to_sparse ok', lambda s: s.get('e3x.ops.dense_to_sparse_indices')(unt(Z(3, 2, n=3))), None))
  cs.append(('sparse_to_dense ok', lambda s: s.get('e3x.ops.sparse_to_dense_indices')(unt(Z(3, n=3)), unt(Z(3, n=3))), None))
  out['index conversions'] = cs
  return out


def unt(a):
  return A.Arr(a.a, a.dtype, False, False)


def layer_cases():
  out = {}
  n, m, e = 3, 2, 4
  dense = dict(adj_idx=lambda: Z(n, m, n=3))
  sparse = dict(dst_idx=lambda: Z(e, n=3), src_idx=lambda: Z(e, n=3))
  X = lambda *lead: R(*lead, n, 1, 4, 2)

  def run_(cls, opts, args, idx):
    return lambda s: s.module('e3x.nn.' + cls, max_degree=1, **opts)(*(a() for a in args), **{k: v() if callable(v) else v for k, v in idx.items()})

  for cls in ('MessagePass', 'MultiHeadAttention', 'SelfAttention'):
    cs = []
    q = [lambda: X()] * (2 if cls == 'MultiHeadAttention' else 1)
    for fused in (False, True):
      o = dict(use_fused_tensor=fused)
      for fmt, idx, lay in (('dense', dense, (n, m)), ('sparse', sparse, (e,))):
        ok = lambda lay=lay: R(*lay, 1, 4, 2)
        cs.append((f'{fmt} ok fused={fused}', run_(cls, o, [*q, ok], idx), None))
        bad = [(lay[0] + 1, *lay[1:]), (1,) * len(lay), (2, *lay), lay[1:], lay[:-1] + (lay[-1] + 2,)]
        if fmt == 'dense':
          bad += [(m, n), (n, 1), (e,), (1, m)]
        else:
          bad += [(e, 1), (n, m)]
        for b in bad:
          if cls != 'MessagePass' and fused:
            continue
          oo = dict(o)
          if cls != 'MessagePass':
            # otherwise the encodings of queries and keys fail first, in a library call
            oo['use_relative_positional_encoding_qk'] = False
          cs.append((f'{fmt} basis lead {b} fused={fused}', run_(cls, oo, [*q, lambda b=b: R(*b, 1, 4, 2)], idx), VE))
      cs += [(f'no indices fused={fused}', run_(cls, o, [*q, lambda: R(e, 1, 4, 2)], {}), RE),
             (f'both fused={fused}', run_(cls, o, [*q, lambda: R(e, 1, 4, 2)], {**dense, **sparse}), RE),
             (f'adj and src fused={fused}', run_(cls, o, [*q, lambda: R(e, 1, 4, 2)], {**dense, 'src_idx': sparse['src_idx']}), RE)]
      if cls != 'SelfAttention' or True:
        cs.append((f'adj and dst fused={fused}', run_(cls, o, [*q, lambda: R(n, m, 1, 4, 2)], {**dense, 'dst_idx': sparse['dst_idx']}), RE))
    if cls == 'MessagePass':
      for fmt, idx, lay in (('dense', dense, (n, m)), ('sparse', sparse, (e,))):
        ok = lambda lay=lay: R(*lay, 1, 4, 2)
        for w in ((3, ), (3, 1, 1, 1), (*lay, 3, 1, 1), (*lay, 1, 3, 1), (*lay, 1, 2, 2), (*lay, 1, 1, 3), (lay[-1] + 1, 1, 4, 2), (2, lay[-1] + 3, 1, 1, 1), (*lay, 1, 4, 4), (5, *lay[1:], 1, 1, 1)):
          cs.append((f'{fmt} weights {w}', run_(cls, {}, [*q, ok, lambda w=w: R(*w)], idx), VE))
        for w in ((), (1,), (2,), (4, 1), (*lay, 1, 1, 1), (*lay, 1, 4, 2), (lay[-1], 1, 1, 1), (1, 1, 2)):
          cs.append((f'{fmt} weights {w}', run_(cls, {}, [*q, ok, lambda w=w: R(*w)], idx), None))
    else:
      for fmt, idx, lay in (('dense', dense, (n, m)), ('sparse', sparse, (e,))):
        ok = lambda lay=lay: R(*lay, 1, 4, 2)
        for a, b in itertools.product((True, False), repeat=2):
          o = dict(use_relative_positional_encoding_qk=a, use_relative_positional_encoding_v=b)
          cs.append((f'{fmt} no basis qk={a} v={b}', run_(cls, o, q, idx), TE if a or b else None))
        for f, h in ((None, 3), (2, 4), (4, 3), (6, 4), (1, 2), (5, 2), (9, 2), (2, 3)):
          cs.append((f'{fmt} qkv_features={f} num_heads={h}', run_(cls, dict(qkv_features=f, num_heads=h), [*q, ok], idx), VE))
        for f, h in ((None, 1), (None, 2), (2, 1), (4, 2), (3, 3), (6, 3)):
          cs.append((f'{fmt} qkv_features={f} num_heads={h}', run_(cls, dict(qkv_features=f, num_heads=h), [*q, ok], idx), None))
    if cls == 'MultiHeadAttention':
      for fmt, idx, lay in (('dense', dict(adj_idx=lambda: Z(2, n, m, n=3)), (2, n, m)), ('sparse', dict(dst_idx=lambda: Z(2, e, n=3), src_idx=lambda: Z(2, e, n=3)), (2, e))):
        ok = lambda lay=lay: R(*lay, 1, 4, 2)
        for a, b in (((2,), (3,)), ((2,), ()), ((), (2,)), ((2,), (1,)), ((1,), (2,)), ((2, 1), (2,)), ((1, 2), (2, 1)), ((2,), (2, 2))):
          cs.append((f'{fmt} batch {a} and {b}', run_(cls, {}, [lambda a=a: X(*a), lambda b=b: X(*b), ok], idx), VE))
        cs.append((f'{fmt} batch ok', run_(cls, {}, [lambda: X(2), lambda: X(2), ok], idx), None))
    for f, k in (('dst_idx', e + 1), ('src_idx', e - 1)):
      ii = dict(sparse)
      ii[f] = lambda k=k: Z(k, n=3)
    out[cls] = cs
  # unequal index lists
  cs = []
  for d, c in (((e,), (e + 1,)), ((2, e), (e,)), ((e, 1), (e,)), ((1,), (e,))):
    cs.append((f'dst {d} src {c}', lambda s, d=d, c=c: s.get('e3x.ops.indexed._determine_index_type')(dst_idx=Z(*d), src_idx=Z(*c)), VE))
  out['index type'] = cs
  return out


# ------------------------------------------------------------------- SO(3)
NEG = (-1, -2, -7)


def so3_cases():
  out = {}
  for f in ('spherical_harmonics', 'solid_harmonics'):
    cs = []
    g = lambda s, f=f: s.get('e3x.so3.' + f)
    for sh in ((), (1,), (2,), (4,), (0,), (3, 1), (3, 2), (2, 4), (3, 3, 1)):
      for L in (0, 1, 2):
        cs.append((f'r shape {sh} max_degree={L}', lambda s, g=g, sh=sh, L=L: g(s)(R(*sh), max_degree=L), VE))
    for L in NEG:
      for sh in ((3,), (2, 3), (0, 3)):
        for c in (True, False):
          cs.append((f'max_degree={L} {sh} cartesian={c}', lambda s, g=g, sh=sh, L=L, c=c: g(s)(R(*sh), max_degree=L, cartesian_order=c), VE))
    for sh in ((3,), (2, 3), (0, 3), (1, 2, 3)):
      cs.append((f'ok {sh}', lambda s, g=g, sh=sh: g(s)(R(*sh), max_degree=1), None))
    if f == 'spherical_harmonics':
      for nrm in ('', 'Racah', 'schmid', 'none', '4PI', 0):
        for L, rn in itertools.product((0, 1), (True, False)):
          cs.append((f'normalization={nrm!r} L={L} r_is_normalized={rn}', lambda s, g=g, nrm=nrm, L=L, rn=rn: g(s)(R(3), max_degree=L, normalization=nrm, r_is_normalized=rn), VE))
      for nrm in ('racah', 'schmidt', '4pi', 'orthonormal'):
        cs.append((f'normalization={nrm!r}', lambda s, g=g, nrm=nrm: g(s)(R(3), max_degree=1, normalization=nrm), None))
    out[f] = cs
  for f in ('clebsch_gordan', 'clebsch_gordan_for_degrees'):
    cs = []
    for pos, v, w, c in itertools.product(range(3), NEG, (0, 1, 2), (True, False)):
      d = [w, w, w]
      d[pos] = v
      cs.append((f'{d} cartesian={c}', lambda s, f=f, d=d, c=c: s.get('e3x.so3.' + f)(*d, cartesian_order=c), VE))
    for d in ((0, 0, 0), (0, 1, 1), (2, 0, 1)):
      cs.append((f'{d}', lambda s, f=f, d=d: s.get('e3x.so3.' + f)(*d), None))
    out[f] = cs
  for f in ('irreps_to_tensor', 'tensor_to_irreps', 'is_traceless_symmetric'):
    cs = []
    g = lambda s, f=f: s.get('e3x.so3.' + f)
    for v in NEG:
      for sh in ((1,), (3,), (2, 3), (3, 3), ()):
        cs.append((f'degree={v} {sh}', lambda s, g=g, v=v, sh=sh: g(s)(R(*sh), degree=v), VE))
    ok = (lambda L: (2 * L + 1,)) if f == 'irreps_to_tensor' else (lambda L: (3,) * L or (1,))
    for L in (0, 1, 2, 3):
      shapes = [(), (1,), (2,), (3,), (4,), (5,), (7,), (2 * L,), (2 * L + 2,), (3, 3), (3, 1), (1, 3), (3, 2), (2, 3), (3, 3, 3), (3, 3, 2), (2, 3, 3), (3, 1, 3), (1, 1), (6,), (9,), (27,)]
      for sh in dict.fromkeys(shapes):
        k = len(ok(L))
        valid = len(sh) >= k and sh[len(sh) - k:] == ok(L)
        if valid and f == 'is_traceless_symmetric':
          continue
        cs.append((f'degree={L} shape {sh}', lambda s, g=g, L=L, sh=sh: g(s)(R(*sh), degree=L), None if valid else VE))
      if f != 'is_traceless_symmetric':
        for nrm in ('', 'Racah', 'schmid', 'none', 0):
          for c in (True, False):
            cs.append((f'degree={L} normalization={nrm!r} {c}', lambda s, g=g, L=L, nrm=nrm, c=c: g(s)(R(*ok(L)), degree=L, normalization=nrm, cartesian_order=c), VE))
    out[f] = cs
  cs = []
  for sh in ((), (3,), (9,), (3, 1), (1, 3), (2, 3), (3, 2), (3, 4), (4, 3), (4, 4), (2, 2), (3, 3, 2), (3, 3, 1), (2, 3, 4), (3, 2, 3), (3, 4, 4), (0, 3, 2)):
    for L in (0, 1):
      for c in (True, False):
        cs.append((f'wigner_d {sh} {L} {c}', lambda s, sh=sh, L=L, c=c: s.get('e3x.so3.wigner_d')(R(*sh), max_degree=L, cartesian_order=c), VE))
    cs.append((f'euler {sh}', lambda s, sh=sh: s.get('e3x.so3.euler_angles_from_rotation')(R(*sh)), VE))
  for L in NEG:
    cs.append((f'wigner_d max_degree={L}', lambda s, L=L: s.get('e3x.so3.wigner_d')(R(3, 3), max_degree=L), VE))
  for sh in ((3, 3), (2, 3, 3), (0, 3, 3)):
    cs.append((f'wigner_d ok {sh}', lambda s, sh=sh: s.get('e3x.so3.wigner_d')(R(*sh), max_degree=1), None))
    cs.append((f'euler ok {sh}', lambda s, sh=sh: s.get('e3x.so3.euler_angles_from_rotation')(R(*sh)), None))
  out['rotations'] = cs
  return out


def basis_cases():
  cs = []

  def call(s, sh, cut=False, **kw):
    k = dict(max_degree=1, num=2, radial_fn=s.get('e3x.nn.basic_gaussian'))
    if cut:
      k['cutoff_fn'] = s.get('e3x.nn.smooth_cutoff')
    k.update(kw)
    return s.get('e3x.nn.basis')(R(*sh), **k)

  def eb(s, sh, cut=False, **kw):
    k = dict(max_degree=1, num=2, radial_fn=s.get('e3x.nn.exponential_gaussian'))
    if cut:
      k['cutoff_fn'] = s.get('e3x.nn.smooth_cutoff')
    k.update(kw)
    return s.module('e3x.nn.ExponentialBasis')(R(*sh), **k)

  for n, f in (('basis', call), ('ExponentialBasis', eb)):
    for sh in ((), (1,), (2,), (4,), (3, 1), (3, 2), (2, 4), (0,), (3, 3, 4)):
      for cut in (True, False):
        for rc, rn in itertools.product((True, False), repeat=2):
          if rc and not cut:
            continue
          cs.append((f'{n} r {sh} cutoff={cut} {rc} {rn}', lambda s, f=f, sh=sh, cut=cut, rc=rc, rn=rn: f(s, sh, cut, return_cutoff=rc, return_norm=rn), VE))
    for sh in ((3,), (2, 3), (0, 3)):
      for rn in (True, False):
        cs.append((f'{n} return_cutoff without cutoff_fn {sh} {rn}', lambda s, f=f, sh=sh, rn=rn: f(s, sh, False, return_cutoff=True, return_norm=rn), VE))
        cs.append((f'{n} ok {sh} {rn}', lambda s, f=f, sh=sh, rn=rn: f(s, sh, True, return_cutoff=True, return_norm=rn), None))
        cs.append((f'{n} no cutoff ok {sh} {rn}', lambda s, f=f, sh=sh, rn=rn: f(s, sh, False, return_norm=rn), None))
    for v in NEG:
      cs.append((f'{n} max_degree={v}', lambda s, f=f, v=v: f(s, (3,), False, max_degree=v), VE))
    for v in (0, -1):
      cs.append((f'{n} num={v}', lambda s, f=f, v=v: f(s, (3,), False, num=v), VE))
  return {'basis': cs}


def init_cases():
  out = {}
  key = lambda: lib.KeyV('k')
  names = ['tensor_%s_%s' % (a, b) for a in ('glorot', 'xavier', 'lecun', 'he', 'kaiming') for b in ('uniform', 'normal')]
  cs = []
  bad = [(), (1,), (2, 2, 1), (1, 1, 1, 1, 1, 1), (2, 2, 2, 2, 2, 2), (1,) * 8, (2, 1, 2, 1, 2, 1, 1, 1), (0, 1, 1, 1, 1, 1, 1), (3, 1, 1, 1, 1, 1, 1), (1, 1, 3, 1, 1, 1, 1), (1, 1, 0, 1, 1, 1, 1),
         (1, 1, 1, 1, 3, 1, 1), (1, 1, 1, 1, 0, 1, 1), (2, 2, 4, 2, 2, 2, 2), (1, 2, 1, 2, 5, 2, 2)]
  for n in names:
    for sh in bad:
      cs.append((f'{n} {sh}', lambda s, n=n, sh=sh: s.get('e3x.nn.initializers.' + n)()(key(), sh), VE))
    for sh in ((1, 1, 1, 1, 1, 1, 1), (2, 2, 1, 2, 2, 2, 3)):
      cs.append((f'{n} {sh}', lambda s, n=n, sh=sh: s.get('e3x.nn.initializers.' + n)()(key(), sh), None))
  out['initializer shapes'] = cs
  cs = []
  sh = (1, 2, 1, 2, 2, 2, 2)
  mk = lambda s, m, d, sh=sh: s.get('e3x.nn.initializers.tensor_variance_scaling')(1.0, m, d)(key(), sh)
  M, D = ('fan_in', 'fan_out', 'fan_avg'), ('truncated_normal', 'normal', 'uniform')
  for m in ('', 'fan', 'fanin', 'FAN_IN', None, 'avg'):
    for d in D:
      cs.append((f'mode={m!r} {d}', lambda s, m=m, d=d: mk(s, m, d), VE))
  for d in ('', 'gauss', 'Normal', 'truncated', None):
    for m in M:
      cs.append((f'distribution={d!r} {m}', lambda s, m=m, d=d: mk(s, m, d), VE))
  for m, d in itertools.product(M, D):
    cs.append((f'{m} {d}', lambda s, m=m, d=d: mk(s, m, d), None))
  out['variance scaling'] = cs
  return out


def matrix_cases():
  cs = []

  def ok(degrees, mult, top):
    mul = {}
    for la, lb in itertools.product(degrees, degrees):
      for l in range(abs(la - lb), min(la + lb, top) + 1):
        mul[l] = mul.get(l, 0) + 1
    return [(2 * l + 1, mul.get(l, 0) * mult * mult) for l in range(top + 1)]

  def call(s, shapes, degrees, mult, top, shift=False):
    return s.get('e3x.matrix.make_square_matrix')([R(*x) for x in shapes], degrees=degrees, mult=mult, max_degree=top, shift_by_id=shift, precision=None)

  for degrees, mult, top in (((0, 1), 1, 2), ((0, 1), 2, 1), ((1,), 1, 2), ((0,), 1, 0), ((1, 0), 1, 1)):
    base = ok(degrees, mult, top)
    cs.append((f'ok {degrees} {mult} {top}', lambda s, b=base, d=degrees, m=mult, t=top: call(s, b, d, m, t), None))
    for t in range(max(degrees)):
      cs.append((f'{degrees} max_degree={t}', lambda s, b=base, d=degrees, m=mult, t=t: call(s, b, d, m, t), VE))
    for i in range(len(base)):
      b = list(base)
      b[i] = (b[i][0] + 1, b[i][1])
      cs.append((f'{degrees} even size at {i}', lambda s, b=b, d=degrees, m=mult, t=top: call(s, b, d, m, t), VE))
      if base[i][1] and 2 * max(degrees) >= i:
        b = list(base)
        b[i] = (b[i][0], b[i][1] - 1)
        cs.append((f'{degrees} too few features at {i}', lambda s, b=b, d=degrees, m=mult, t=top: call(s, b, d, m, t), VE))
  return {'make_square_matrix': cs}


# ----------------------------------------------------------------- quadrature
def quadrature_cases():
  """Argument checks of the quadrature functions, over modelled grid files."""
  from . import c22
  out = {}
  grids = {'lebedev': ([3, 5, 7], [6, 14, 26]), 'delley': ([5, 7], [14, 26])}

  def call(s, fam, **kw):
    for f, (p, n) in grids.items():
      s.w.fs.package.setdefault(f'_{f}_grids.npz', c22.content(f, p, n))
    return s.get(f'e3x.so3.{fam}_quadrature')(**kw)

  for fam in grids:
    cs = []
    for kw in [{}, dict(precision=None, num=None)] + [dict(precision=p, num=q) for p in (0, 1, -1, 100) for q in (0, 1, -1, 100)]:
      cs.append((f'{kw}', lambda s, kw=kw, fam=fam: call(s, fam, **kw), VE))
    for kw in [dict(precision=p) for p in (-1, 0, 3, 100)] + [dict(num=p) for p in (-1, 0, 30)] + [dict(precision=None, num=0), dict(precision=0, num=None)]:
      cs.append((f'{kw}', lambda s, kw=kw, fam=fam: call(s, fam, **kw), None))
    out[f'{fam}_quadrature'] = cs
  return out


def obligations(tier):
  obs = []
  groups = {}
  for f in (num_cases, scalar_cases, act_cases, feature_cases, index_cases, layer_cases, so3_cases, basis_cases, init_cases, matrix_cases, quadrature_cases):
    groups.update(f())
  for n, cs in groups.items():
    size = 12 if n in ('MessagePass', 'MultiHeadAttention', 'SelfAttention') else 60
    for i in range(0, len(cs), size):
      obs.append(Ob(f'{n} [{i // size}]', lazy, (n, i, size), 'malformed', cost=20 if size == 12 else 5, valid=False))
  return obs


_CASES = {}


def lazy(n, i, size):
  if not _CASES:
    for f in (num_cases, scalar_cases, act_cases, feature_cases, index_cases, layer_cases, so3_cases, basis_cases, init_cases, matrix_cases, quadrature_cases):
      _CASES.update(f())
  return probe(n, _CASES[n][i:i + size])
