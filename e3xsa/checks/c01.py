"""C01: every trainable layer maps irreps to irreps.

Abstract interpretation of each layer class over the representation-type domain:
inputs are O(3)-typed components, parameters and PRNG draws are arbitrary
invariants, Clebsch-Gordan tables are opaque invariant tensors.  The rule
'typed-output' requires, for every output block, that all 2l+1 components are
components (in storage order) of one and the same tensor of that degree and
parity, for every structural context (channels, degrees, options, index format).
"""

import itertools

from .. import arr as A
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..run import Obligation as Ob

LEVEL = 'other'


def _sess():
  s = rep.Session()
  run.WORLDS.append(s.w)
  return s


def dense(P, L, F, out, bias, lead):
  s = _sess()
  x = rep.features('x', lead, P, L, F)
  y = s.module('e3x.nn.Dense', features=out, use_bias=bias)(x)
  return dict(problems=rep.judge(y, P, L, out, True, 'Dense'), facts=y.size)


def expected_P3(P1, P2, L1, L2, L3, ps):
  if P1 == P2 == 1 and (L1 == 0 or L2 == 0 or L3 == 0):
    return 1
  return 2 if ps else 1


def tensor(mod, P1, L1, P2, L2, L3, ps, cart, lead=()):
  s = _sess()
  x = rep.features('x', lead, P1, L1, 1, cart)
  y = rep.features('y', lead, P2, L2, 1, cart)
  z = s.module('e3x.nn.' + mod, max_degree=L3, include_pseudotensors=ps, cartesian_order=cart)(x, y)
  l3 = max(L1, L2) if L3 is None else L3
  return dict(problems=rep.judge(z, expected_P3(P1, P2, L1, L2, l3, ps), l3, 1, cart, mod), facts=z.size)


def tensor_dense(P, L, F, L3, ps, cart, fused, feats):
  s = _sess()
  x = rep.features('x', (), P, L, F, cart)
  z = s.module('e3x.nn.TensorDense', features=feats, max_degree=L3, include_pseudotensors=ps,
               cartesian_order=cart, use_fused_tensor=fused)(x)
  l3 = L if L3 is None else L3
  return dict(problems=rep.judge(z, expected_P3(P, P, L, L, l3, ps), l3, feats or F, cart, 'TensorDense'),
              facts=z.size)


def graph(fmt, n, lead):
  """Index arrays of a small graph with a padded neighbour."""
  if fmt == 'dense':
    adj = [[1, 2], [0, n], [0, 1]][:n]
    if lead:
      adj = [adj] * lead[0]
    return dict(adj_idx=rep.ints(adj))
  if lead:
    return dict(dst_idx=rep.ints([[0, 0, 1, 2]] * lead[0]), src_idx=rep.ints([[1, 2, 0, 1]] * lead[0]))
  return dict(dst_idx=rep.ints([0, 0, 1, 2]), src_idx=rep.ints([1, 2, 0, 1]))


def edges(fmt, n):
  return (n, 2) if fmt == 'dense' else (4,)


def message_pass(P, L, Lb, L3, ps, cart, fused, fmt, weights, F=1):
  s = _sess()
  n = 3
  x = rep.features('x', (n,), P, L, F, cart)
  b = rep.features('b', edges(fmt, n), 1, Lb, 1, cart)
  kw = graph(fmt, n, ())
  if weights:
    kw['weights'] = rep.scalars('w', (*edges(fmt, n), 1, 1, 1))
  m = s.module('e3x.nn.MessagePass', max_degree=L3, include_pseudotensors=ps, cartesian_order=cart,
               use_fused_tensor=fused)
  z = m(x, b, **kw)
  l3 = max(L, Lb) if L3 is None else L3
  return dict(problems=rep.judge(z, expected_P3(1, P, Lb, L, l3, ps), l3, F, cart, 'MessagePass'),
              facts=z.size)


def attention(cls, Pq, Lq, Pk, Lk, Lb, L3, ps, cart, fused, fmt, heads, relqk, relv, cutoff, F=2, qkv=None,
              outf=None):
  s = _sess()
  n = 3
  xq = rep.features('q', (n,), Pq, Lq, F, cart)
  xk = xq if cls == 'SelfAttention' else rep.features('k', (n,), Pk, Lk, F, cart)
  kw = graph(fmt, n, ())
  e = edges(fmt, n)
  if relqk or relv:
    kw['basis'] = rep.features('b', e, 1, Lb, 1, cart)
  if cutoff:
    kw['cutoff_value'] = rep.scalars('c', e)
  m = s.module('e3x.nn.' + cls, max_degree=L3, include_pseudotensors=ps, cartesian_order=cart,
               use_fused_tensor=fused, num_heads=heads, qkv_features=qkv, out_features=outf,
               use_relative_positional_encoding_qk=relqk, use_relative_positional_encoding_v=relv)
  z = m(xq, **kw) if cls == 'SelfAttention' else m(xq, xk, **kw)
  if cls == 'SelfAttention':
    Pk, Lk = Pq, Lq
  if relv:
    l3 = max(Lk, Lb) if L3 is None else L3
    p3 = expected_P3(1, Pk, Lb, Lk, l3, ps)
  else:
    l3, p3 = Lk, Pk
  return dict(problems=rep.judge(z, p3, l3, outf or F, cart, cls), facts=z.size)


def embed():
  s = _sess()
  z = s.module('e3x.nn.Embed', num_embeddings=4, features=3)(rep.ints([[0, 3], [1, 2]]))
  return dict(problems=rep.judge(z, 1, 0, 3, True, 'Embed'), facts=z.size)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  R = 'typed-output'
  mined = run.mined_ints(3, 12 if th else 9, files=('modules.py', 'irreps.py', '_common.py', 'features.py', 'indexed.py'))

  def add(name, fn, args, cost=1.0):
    obs.append(Ob(name, fn, args, R, cost=cost))

  add('Embed', embed, ())
  degs = sorted(set(range(0, 7 if th else 5)) | {m for m in mined})
  for P, L, bias in itertools.product((1, 2), degs, (True, False)):
    add(f'Dense P={P} L={L} bias={bias}', dense, (P, L, 2, 3, bias, ()))
  for P in (1, 2):
    add(f'Dense P={P} L=2 lead=(2,2)', dense, (P, 2, 2, 2, True, (2, 2)))
    for F in [m for m in mined][:6]:
      add(f'Dense P={P} L=1 F={F}', dense, (P, 1, F, F, True, ()))
  top = 3 if th else 2
  for mod in ('Tensor', 'FusedTensor'):
    seen = set()
    for P1, P2, ps, cart in itertools.product((1, 2), (1, 2), (True, False), (True, False)):
      for L1, L2 in itertools.product(range(top + 1), repeat=2):
        for L3 in [None] + list(range(L1 + L2 + 1)):
          if L3 is not None and L3 > 3 and not th:
            continue
          add(f'{mod} P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps} cartesian={cart}',
              tensor, (mod, P1, L1, P2, L2, L3, ps, cart), cost=1 + L1 * L2)
    big = sorted({m for m in mined if m <= (6 if th else 5)} | {3, 4})
    for L in big:
      for P1, P2, ps in itertools.product((1, 2), (1, 2), (True, False)):
        for (L1, L2, L3) in ((L, 1, L), (1, L, L), (1, L - 1, L)) + (((L, L, 1),) if L <= 3 or th else ()):
          add(f'{mod} P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps} cartesian=True big',
              tensor, (mod, P1, L1, P2, L2, L3, ps, True), cost=L ** 4)
    add(f'{mod} leading axes', tensor, (mod, 2, 1, 1, 1, None, True, True, (2,)))
  for P, L, L3, ps, cart, fused in itertools.product((1, 2), (0, 1, 2), (None, 0, 1), (True, False),
                                                     (True, False), (True, False)):
    if L3 is not None and L3 > 2 * L:
      continue
    add(f'TensorDense P={P} L={L} max_degree={L3} pseudo={ps} cartesian={cart} fused={fused}',
        tensor_dense, (P, L, 1, L3, ps, cart, fused, None if L != 1 else 2), cost=5)
  for P, L, Lb, ps, fused, fmt in itertools.product((1, 2), (0, 1, 2), (0, 1, 2), (True, False),
                                                    (True, False), ('dense', 'sparse')):
    if not th and L == 2 and Lb == 2 and P == 2:
      continue
    add(f'MessagePass P={P} L={L} basis L={Lb} pseudo={ps} fused={fused} {fmt}', message_pass,
        (P, L, Lb, None, ps, L != 1, fused, fmt, False), cost=10)
  for fmt in ('dense', 'sparse'):
    add(f'MessagePass weights {fmt}', message_pass, (2, 1, 1, 2, True, True, False, fmt, True), cost=10)
    add(f'MessagePass max_degree=0 {fmt}', message_pass, (2, 1, 1, 0, True, True, False, fmt, True), cost=5)
  for cls in ('MultiHeadAttention', 'SelfAttention'):
    for Pq, Pk, fused, fmt, heads in itertools.product((1, 2), (1, 2), (True, False), ('dense', 'sparse'), (1, 2)):
      if cls == 'SelfAttention' and Pk != Pq:
        continue
      for relqk, relv, cutoff in itertools.product((True, False), repeat=3):
        if not th and (heads == 2) != cutoff:
          continue
        for Lq, Lk in ((1, 1), (0, 1), (1, 0)):
          if cls == 'SelfAttention' and Lq != Lk:
            continue
          add(f'{cls} Pq={Pq} Lq={Lq} Pk={Pk} Lk={Lk} fused={fused} {fmt} heads={heads} '
              f'relqk={relqk} relv={relv} cutoff={cutoff}', attention,
              (cls, Pq, Lq, Pk, Lk, 1, None, True, True, fused, fmt, heads, relqk, relv, cutoff), cost=20)
    for ps, cart, L3 in itertools.product((True, False), (True, False), (None, 0, 2)):
      add(f'{cls} pseudo={ps} cartesian={cart} max_degree={L3}', attention,
          (cls, 1, 1, 1, 1, 1, L3, ps, cart, False, 'dense', 1, True, True, True), cost=20)
    add(f'{cls} L=2', attention, (cls, 2, 2, 2, 2, 1, None, True, True, False, 'sparse', 1, True, True, False), cost=60)
    add(f'{cls} qkv/out features', attention,
        (cls, 2, 1, 2, 1, 1, None, True, True, False, 'dense', 2, True, True, True, 2, 4, 3), cost=60)
  return obs
