"""C11: layer options reach every place they govern.

Every layer is interpreted with a distinct marker for each of its options (precision,
computation type, parameter type, one marker initializer per initializer option, all bias
flags, feature counts).  The parameter tree the layer declares is compared with the tree
the documentation prescribes (path, shape, type and the option whose marker initialises
it); every contraction of non-constant data must carry the requested precision; every
parameter must be converted to the requested computation type before it is used; sorted
index promises are made to the backend only when the caller made them.
"""

import itertools

from .. import arr as A
from .. import catalog
from .. import lib
from .. import rep
from .. import run
from ..errors import Unsupported
from ..graphs import GRAPHS, Layout
from ..run import Obligation as Ob


class Marker:
  """An initializer option value that can be recognised."""

  def __init__(self, opt, inner=None):
    self.opt = opt
    self.inner = inner

  def __call__(self, *a, **k):
    if self.opt.endswith('fused'):        # factory: variance, mask -> initializer
      return Marker(self.opt[:-6], a)
    shape, dtype = a[1], a[2]
    return A.Arr(A._full(tuple(shape), 0.0), A.canon(dtype))

  def __repr__(self):
    return f'<{self.opt}>'


def dense_tree(name, P, L, Fin, F, bias, k, b):
  """Parameters of a Dense layer by documentation: one kernel per degree and parity."""
  t = {}
  for l in range(L + 1):
    for par in ('+-' if P == 2 else '+-'[l % 2]):
      t[f'{name}{l}{par}/kernel'] = ((Fin, F), k)
  if bias:
    t[f'{name}0+/bias'] = ((F,), b)
  return t


def tensor_tree(name, fused, P1, L1, P2, L2, P3, L3, F, k):
  if not fused:
    return {f'{name}kernel': ((P1, L1 + 1, P2, L2 + 1, P3, L3 + 1, F), k)}
  t = {}
  for n, l in (('e1', L1), ('o1', L1), ('e2', L2), ('o2', L2), ('eee', L3), ('ooe', L3), ('eoo', L3), ('oeo', L3)):
    t[f'{name}kernel_{n}'] = ((l + 1, F), k)
  return t


def num_parity(P1, L1, P2, L2, L3, pseudo):
  if P1 == P2 == 1 and (L1 == 0 or L2 == 0 or L3 == 0):
    return 1
  return 2 if pseudo else 1


class Ctx:

  def __init__(self, mode):
    # mode: dict(precision=, dtype=, param_dtype=)
    self.s = catalog.session()
    run.WORLDS.append(self.s.w)
    A.reset_events()
    lib.PARAM_CALL_INIT[0] = False
    self.mode = mode

  def check(self, layer, want, in_dtype='float32'):
    m = self.mode
    name = layer
    out = []
    facts = 0
    got = {p['path']: p for p in A.events().params}
    P = A.todtype(m.get('param_dtype') or 'float32').name
    for k in want:
      if k not in got:
        out.append(run.Finding('parameters', f'{name} {k}', f'{name}: parameter {k} is missing (declared: {sorted(got)})'))
    for k, p in got.items():
      facts += 3
      if k not in want:
        out.append(run.Finding('parameters', f'{name} {k}', f'{name}: unexpected parameter {k}', str(p['loc'])))
        continue
      shape, opt = want[k]
      if tuple(p['shape']) != tuple(shape):
        out.append(run.Finding('parameters', f'{name} {k}', f'{name}: parameter {k} has shape {tuple(p["shape"])} instead of {tuple(shape)}', str(p['loc'])))
      if p['dtype'] is None or p['dtype'].name != P:
        out.append(run.Finding('parameter-type', f'{name} {k}', f'{name}: parameter {k} is created with {p["dtype"]} instead of param_dtype={P}', str(p['loc'])))
      i = p['init']
      if isinstance(i, Marker):
        if i.opt != opt:
          out.append(run.Finding('initializer', f'{name} {k}', f'{name}: parameter {k} is initialised with the option {i.opt} instead of {opt}', str(p['loc'])))
      elif isinstance(i, (lib.InitModel,)):
        out.append(run.Finding('initializer', f'{name} {k}', f'{name}: parameter {k} is initialised with {i!r} instead of the option {opt}', str(p['loc'])))
      else:
        # wrapped initializer: identified by the marker it calls
        seen = []
        old = Marker.__call__
        Marker.__call__ = lambda self_, *a, **kw: (seen.append(self_.opt), old(self_, *a, **kw))[1]
        try:
          i(lib.KeyV('probe'), *p['args'])
        finally:
          Marker.__call__ = old
        seen = {q for q in seen if not q.endswith('fused')}
        if seen != {opt}:
          out.append(run.Finding('initializer', f'{name} {k}', f'{name}: parameter {k} is initialised with {sorted(seen) or i!r} instead of the option {opt}', str(p['loc'])))
    if m.get('precision') is not None:
      n = 0
      for what, loc, prec, tr in A.events().contractions:
        if not tr:
          continue
        n += 1
        if prec != m['precision']:
          out.append(run.Finding('precision', f'{name} {loc}', f'{name}: contraction {what} uses precision={prec} instead of the precision option', str(loc)))
      facts += n
    d = m.get('dtype')
    if d and A.todtype(d).name != P:
      casts = A.events().casts
      for k, p in got.items():
        facts += 1
        if k in want and (k, A.todtype(d).name) not in casts:
          out.append(run.Finding('computation-type', f'{name} {k}', f'{name}: parameter {k} is used without conversion to the computation type {d}', str(p['loc'])))
    return dict(problems=out, facts=facts)


PREC = 'HIGHEST-marker'
MODES = (dict(precision=PREC), dict(dtype='float16', param_dtype='float32'), dict(dtype='bfloat16', param_dtype='float16'),
         dict(param_dtype='bfloat16'), dict(dtype='float32', param_dtype='float16', precision=PREC))


def opts(mode):
  kw = {}
  for k in ('dtype', 'param_dtype'):
    if mode.get(k):
      kw[k] = A.todtype(mode[k])
  if mode.get('precision'):
    kw['precision'] = mode['precision']
  return kw


def feats(name, lead, P, L, F):
  return rep.features(name, lead, P, L, F)


def problems_shape(r, y, shape, name):
  r['facts'] += 1
  if tuple(y.shape) != tuple(shape):
    r['problems'].append(run.Finding('feature-count', name, f'{name}: output has shape {tuple(y.shape)} instead of {tuple(shape)}'))
  return r


def embed(mode, n, F):
  c = Ctx(mode)
  kw = opts(mode)
  kw.pop('precision', None)
  y = c.s.module('e3x.nn.Embed', num_embeddings=n, features=F, embedding_init=Marker('embedding_init'), **kw)(rep.ints([0, n - 1]))
  return problems_shape(c.check('Embed', {'embedding': ((n, 1, 1, F), 'embedding_init')}), y, (2, 1, 1, F), 'Embed')


def dense(mode, P, L, Fin, F, bias):
  c = Ctx(mode)
  kw = {} if bias is None else dict(use_bias=bias)
  y = c.s.module('e3x.nn.Dense', features=F, kernel_init=Marker('kernel_init'), bias_init=Marker('bias_init'), **kw, **opts(mode))(feats('x', (), P, L, Fin))
  b = bias is not False
  return problems_shape(c.check('Dense', dense_tree('', P, L, Fin, F, b, 'kernel_init', 'bias_init')), y, (P, (L + 1) ** 2, F), 'Dense')


def tensor(mode, fused, P1, L1, P2, L2, L3, pseudo, F):
  c = Ctx(mode)
  n = 'FusedTensor' if fused else 'Tensor'
  k = Marker('kernel_init:fused' if fused else 'kernel_init')
  y = c.s.module('e3x.nn.' + n, max_degree=L3, include_pseudotensors=pseudo, kernel_init=k, **opts(mode))(feats('x', (), P1, L1, F), feats('y', (), P2, L2, F))
  l3 = max(L1, L2) if L3 is None else L3
  P3 = num_parity(P1, L1, P2, L2, l3, pseudo)
  return problems_shape(c.check(n, tensor_tree('', fused, P1, L1, P2, L2, P3, l3, F, 'kernel_init')), y, (P3, (l3 + 1) ** 2, F), n)


def tinit(fused):
  return Marker('tensor_kernel_init:fused' if fused else 'tensor_kernel_init')


def tensor_dense(mode, fused, P, L, Fin, F, L3, pseudo, bias):
  c = Ctx(mode)
  kw = {} if bias is None else dict(use_bias=bias)
  y = c.s.module('e3x.nn.TensorDense', features=F, max_degree=L3, include_pseudotensors=pseudo, use_fused_tensor=fused, dense_kernel_init=Marker('dense_kernel_init'),
                 dense_bias_init=Marker('dense_bias_init'), tensor_kernel_init=tinit(fused), **kw, **opts(mode))(feats('x', (), P, L, Fin))
  f = Fin if F is None else F
  l3 = L if L3 is None else L3
  P3 = num_parity(P, L, P, L, l3, pseudo)
  want = dense_tree('dense/', P, L, Fin, 2 * f, bias is not False, 'dense_kernel_init', 'dense_bias_init')
  want.update(tensor_tree('fused_tensor/' if fused else 'tensor/', fused, P, L, P, L, P3, l3, f, 'tensor_kernel_init'))
  return problems_shape(c.check('TensorDense', want), y, (P3, (l3 + 1) ** 2, f), 'TensorDense')


def conv_tree(fused, Pb, Lb, nb, P, L, L3, pseudo, F, bias):
  l3 = max(L, Lb) if L3 is None else L3
  P3 = num_parity(Pb, Lb, P, L, l3, pseudo)
  t = dense_tree('filter/', Pb, Lb, nb, F, bool(bias), 'dense_kernel_init', 'dense_bias_init')
  t.update(tensor_tree('fused_tensor/' if fused else 'tensor/', fused, Pb, Lb, P, L, P3, l3, F, 'tensor_kernel_init'))
  return t, P3, l3


def segment_problems(r, name, asked):
  for w in A.events().warn:
    if w[0] == 'segment':
      r['facts'] += 1
      if w[2] and not asked:
        r['problems'].append(run.Finding('sorted-promise', name, f'{name}: indices are declared sorted to the backend although the caller did not', str(w[3])))
  return r


def message_pass(mode, fmt, fused, P, L, F, Lb, nb, L3, pseudo, bias, nseg):
  c = Ctx(mode)
  n, edges = GRAPHS['unequal']
  lay = Layout(n, edges, fmt)
  kw = {} if bias is None else dict(use_basis_bias=bias)
  m = c.s.module('e3x.nn.MessagePass', max_degree=L3, include_pseudotensors=pseudo, use_fused_tensor=fused, dense_kernel_init=Marker('dense_kernel_init'),
                 dense_bias_init=Marker('dense_bias_init'), tensor_kernel_init=tinit(fused), **kw, **opts(mode))
  ck = lay.kwargs()
  if nseg is not None:
    ck['num_segments'] = nseg
  y = m(feats('x', (n,), P, L, F), feats('b', lay.shape, 1, Lb, nb), **ck)
  want, P3, l3 = conv_tree(fused, 1, Lb, nb, P, L, L3, pseudo, F, bias)
  r = problems_shape(c.check('MessagePass', want), y, (nseg if nseg is not None and fmt == 'sparse' else n, P3, (l3 + 1) ** 2, F), 'MessagePass')
  return segment_problems(r, 'MessagePass', False)


def attention(mode, cls, fmt, fused, o, biases, Lb, nb, nseg=None):
  c = Ctx(mode)
  n, edges = GRAPHS['unequal']
  lay = Layout(n, edges, fmt)
  self_ = cls == 'SelfAttention'
  Pq, Lq, Fq = o.get('q', (1, 1, 2))
  Pk, Lk, Fk = (Pq, Lq, Fq) if self_ else o.get('kv', (2, 1, 3))
  qkv, outf, heads = o.get('qkv'), o.get('out'), o.get('heads', 1)
  relqk, relv = o.get('relqk', True), o.get('relv', True)
  L3, pseudo = o.get('L3'), o.get('pseudo', True)
  kw = {}
  names = ('query', 'key', 'value', 'output')
  defaults = dict(query=False, key=False, value=False, output=True, basis=False)
  on = dict(defaults)
  for k, b in biases.items():
    kw['use_basis_bias' if k == 'basis' else k + '_use_bias'] = b
    on[k] = b
  for k in names:
    kw[k + '_kernel_init'] = Marker(k + '_kernel_init')
    kw[k + '_bias_init'] = Marker(k + '_bias_init')
  m = c.s.module('e3x.nn.' + cls, max_degree=L3, include_pseudotensors=pseudo, use_fused_tensor=fused, num_heads=heads, qkv_features=qkv, out_features=outf,
                 use_relative_positional_encoding_qk=relqk, use_relative_positional_encoding_v=relv,
                 dense_kernel_init=Marker('dense_kernel_init'), dense_bias_init=Marker('dense_bias_init'), tensor_kernel_init=tinit(fused), **kw, **opts(mode))
  ck = lay.kwargs()
  if nseg is not None:
    ck['num_segments'] = nseg
  xs = [feats('q', (n,), Pq, Lq, Fq)] + ([] if self_ else [feats('k', (n,), Pk, Lk, Fk)])
  y = m(*xs, feats('b', lay.shape, 1, Lb, nb), rep.scalars('c', lay.shape), **ck)
  f = Fq if qkv is None else qkv
  g = Fq if outf is None else outf
  P, L = min(Pq, Pk), min(Lq, Lk)
  # common parity channels and degrees of queries and keys
  want = dense_tree('query/', P, L, Fq, f, on['query'], 'query_kernel_init', 'query_bias_init')
  want.update(dense_tree('key/', P, L, Fk, f, on['key'], 'key_kernel_init', 'key_bias_init'))
  want.update(dense_tree('value/', Pk, Lk, Fk, f, on['value'], 'value_kernel_init', 'value_bias_init'))
  if relqk:
    k = 'relative_positional_encoding/'
    want[k + 'kernel'] = ((nb, P * (L + 1) * f), 'dense_kernel_init')
    if on['basis']:
      want[k + 'bias'] = ((P * (L + 1) * f,), 'dense_bias_init')
  P3, l3 = Pk, Lk
  if relv:
    t, P3, l3 = conv_tree(fused, 1, Lb, nb, Pk, Lk, L3, pseudo, f, on['basis'])
    want.update(t)
  want.update(dense_tree('out/', P3, l3, f, g, on['output'], 'output_kernel_init', 'output_bias_init'))
  r = problems_shape(c.check(cls, want), y, (nseg if nseg is not None and fmt == 'sparse' else n, P3, (l3 + 1) ** 2, g), cls)
  return segment_problems(r, cls, False)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  R = 'options'

  def add(name, fn, args, cost=1.0):
    obs.append(Ob(name, fn, args, R, cost=cost))

  for i, mode in enumerate(MODES):
    t = ','.join(f'{k}={v}' for k, v in mode.items())
    add(f'Embed {t}', embed, (mode, 4, 3))
    add(f'Embed one {t}', embed, (mode, 1, 1))
    for P, L, F, bias in itertools.product((1, 2), (0, 1, 2, 3), (1, 3), (None, True, False)):
      add(f'Dense P={P} L={L} F={F} bias={bias} {t}', dense, (mode, P, L, 2, F, bias))
    for fused, P1, P2, ps in itertools.product((True, False), (1, 2), (1, 2), (True, False)):
      for L1, L2, L3 in ((1, 1, None), (0, 0, None), (0, 1, None), (1, 0, 1), (1, 1, 0), (1, 1, 2), (2, 1, 1), (1, 2, 3)):
        if (L1, L2, L3) in ((2, 1, 1), (1, 2, 3)) and not th and (i or P1 == P2 == 2):
          continue
        add(f'{"Fused" if fused else ""}Tensor P={P1},{P2} L={L1},{L2}->{L3} pseudo={ps} {t}', tensor, (mode, fused, P1, L1, P2, L2, L3, ps, 2), 3)
    for fused, P, L, F, L3, bias in itertools.product((True, False), (1, 2), (0, 1), (None, 3), (None, 0), (None, True, False)):
      if not th and bias is None and F is None:
        continue
      add(f'TensorDense fused={fused} P={P} L={L} F={F} L3={L3} bias={bias} {t}', tensor_dense, (mode, fused, P, L, 2, F, L3, True, bias), 5)
    add(f'TensorDense no pseudotensors {t}', tensor_dense, (mode, False, 2, 1, 2, 2, None, False, None), 5)
    for fmt, fused, P, bias in itertools.product(('dense', 'sparse'), (True, False), (1, 2), (None, True)):
      add(f'MessagePass {fmt} fused={fused} P={P} bias={bias} {t}', message_pass, (mode, fmt, fused, P, 1, 2, 1, 3, None, True, bias, None), 8)
    add(f'MessagePass options {t}', message_pass, (mode, 'sparse', False, 1, 1, 2, 0, 3, 1, False, False, 5), 8)
    for cls, fused in itertools.product(('MultiHeadAttention', 'SelfAttention'), (True, False)):
      fmt = 'dense' if fused else 'sparse'
      add(f'{cls} defaults fused={fused} {t}', attention, (mode, cls, fmt, fused, {}, {}, 1, 3), 20)
      add(f'{cls} num_segments fused={fused} {t}', attention, (mode, cls, 'sparse', fused, {}, {}, 1, 3, 4), 20)
      cs = [dict(relqk=False), dict(relv=False), dict(relqk=False, relv=False), dict(qkv=4, heads=2), dict(out=3), dict(qkv=4, out=1, heads=4, relv=False),
            dict(L3=0, pseudo=False), dict(L3=2, relqk=False), dict(q=(2, 1, 2), kv=(1, 1, 2)), dict(q=(2, 0, 2), kv=(2, 1, 2)), dict(q=(1, 1, 2), kv=(2, 0, 1))]
      for j, o in enumerate(cs):
        if not th and i not in (0, 1 + j % 4):
          continue
        add(f'{cls} {o} fused={fused} {t}', attention, (mode, cls, fmt, fused, o, {}, 1, 2), 20)
      for j, k in enumerate(('query', 'key', 'value', 'output', 'basis')):
        for b in (True, False):
          if not th and i != j:
            continue
          add(f'{cls} {k} bias={b} fused={fused} {t}', attention, (mode, cls, fmt, fused, {}, {k: b}, 0, 2), 10)
      add(f'{cls} all biases fused={fused} {t}', attention, (mode, cls, fmt, fused, {}, {k: True for k in ('query', 'key', 'value', 'output', 'basis')}, 0, 2), 10)
  return obs
