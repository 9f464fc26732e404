"""Catalogue of the public operations with labelled inputs, used by several checks.

An operation is called on arrays with arbitrary leading axes; every input element is an
uninterpreted value whose dependence label names the input and the batch entry.
"""

import itertools

import numpy as np

from . import arr as A
from . import funcs
from . import lib
from . import poly
from . import rep
from .checks import c06
from .graphs import GRAPHS, Layout


class In:

  def __init__(self, name, shape=(), kind='real', layout=None, which=None):
    self.name = name
    self.shape = tuple(shape)
    self.kind = kind
    self.layout = layout
    self.which = which

  def make(self, lead, dtype=None):
    if self.kind == 'key':
      return lib.KeyV(('input', self.name))
    if self.kind in ('real', 'edge'):
      shape = self.shape
      a = np.empty((*lead, *shape), dtype=object)
      for b in np.ndindex(*lead):
        for ix in np.ndindex(*shape):
          a[(*b, *ix)] = poly.var('in', (self.name, b, ix), deps=frozenset([(self.name, b)]), name=f'{self.name}{list(b)}{list(ix)}')
      return A.Arr(A._obj(a), dtype or A.F32, False, True)
    if self.kind == 'int':
      a = np.empty((*lead, *self.shape), dtype=object)
      for i, ix in enumerate(np.ndindex(*a.shape)):
        a[ix] = i % self.which
      return A.Arr(A._obj(a), A.I32, False, True)
    if self.kind == 'bool':
      a = np.empty((*lead, *self.shape), dtype=object)
      for i, ix in enumerate(np.ndindex(*a.shape)):
        a[ix] = i % self.which != 1
      return A.Arr(A._obj(a), A.BOOL, False, True)
    lay = layout(self.layout, lead)
    if self.kind == 'where':
      return lay.kwargs(where=True)['where']
    return lay.index(0 if self.kind == 'dst' else 1)


def layout(spec, lead):
  g, fmt, extra = spec
  n, edges = GRAPHS[g]
  srt = sorted(range(len(edges)), key=lambda e: edges[e][0])
  per = {}
  for i, b in enumerate(np.ndindex(*lead)):
    o = srt if i % 2 == 0 else srt[::-1]
    per[b] = o if i % 3 != 1 else o[:-1]
  return Layout(n, edges, fmt, srt, extra, lead, per_batch=per) if lead else Layout(n, edges, fmt, srt, extra)


class Op:

  def __init__(self, name, inputs, call, group='', cost=1, batch=True):
    self.batch = batch      # accepts leading axes
    self.name = name
    self.inputs = inputs
    self.call = call
    self.group = group
    self.cost = cost


def session(fold=False):
  s = rep.Session(fold=fold)
  s.hook_tables()
  return s


def results(r):
  if isinstance(r, (tuple, list)):
    out = []
    for q in r:
      out += results(q)
    return out
  return [A.asarr(r)]


def fun(name, *a, **kw):
  return lambda s, *x: s.get(name)(*x, *a, **kw)


def mod(name, *names, **kw):
  def call(s, *x):
    pos = x[:len(x) - len(names)]
    return s.module(name, **kw)(*pos, **dict(zip(names, x[len(x) - len(names):])))
  return call


def kwfun(name, names, **kw):
  def call(s, *x):
    pos = x[:len(x) - len(names)]
    return s.get(name)(*pos, **dict(zip(names, x[len(x) - len(names):])), **kw)
  return call


def feat(name, P, L, F=2):
  return In(name, (P, (L + 1) ** 2, F))


def operations(th=False):
  ops = []

  def add(name, inputs, call, group='', cost=1, batch=True):
    ops.append(Op(name, inputs, call, group, cost, batch))

  # scalar functions
  for f in funcs.registry(False, nums=(3,)):
    if len(f.kw) > 3 and not th:
      continue
    add(f.label, [In('x')], fun('e3x.nn.' + f.name, **f.kw), 'function')
  for name, kw in c06.ACT:
    add(f'{name}({kw})', [feat('x', 2, 1)], fun('e3x.nn.' + name, **kw), 'activation')
    add(f'{name}({kw}) P=1 L=0', [feat('x', 1, 0)], fun('e3x.nn.' + name, **kw), 'activation')
  # features
  for P, L in itertools.product((1, 2), (0, 1, 2)):
    for md, ps in itertools.product((None, 0, 1, 2), (None, True, False)):
      add(f'change_max_degree_or_type P={P} L={L} to {md},{ps}', [feat('x', P, L)],
          fun('e3x.nn.change_max_degree_or_type', max_degree=md, include_pseudotensors=ps), 'features')
    add(f'reflect P={P} L={L}', [feat('x', P, L)], fun('e3x.nn.reflect'), 'features')
    add(f'rotate P={P} L={L}', [feat('x', P, L), In('D', ((L + 1) ** 2, (L + 1) ** 2))], fun('e3x.nn.rotate'), 'features')
  add('add', [feat('x', 2, 1), feat('y', 1, 2), feat('z', 1, 0)], fun('e3x.nn.add'), 'features')
  # layers
  for P, L, bias in itertools.product((1, 2), (0, 1, 2), (True, False)):
    add(f'Dense P={P} L={L} bias={bias}', [feat('x', P, L)], mod('e3x.nn.Dense', features=3, use_bias=bias), 'layer', 2)
  add('Embed', [In('i', (2,), 'int', which=4)], mod('e3x.nn.Embed', num_embeddings=4, features=3), 'layer')
  add('Embed scalar', [In('i', (), 'int', which=4)], mod('e3x.nn.Embed', num_embeddings=4, features=3), 'layer')
  for m, P, Q, ps in itertools.product(('Tensor', 'FusedTensor'), (1, 2), (1, 2), (True, False)):
    add(f'{m} P={P},{Q} pseudo={ps}', [feat('x', P, 1), feat('y', Q, 1)], mod('e3x.nn.' + m, include_pseudotensors=ps), 'layer', 5)
  for m in ('Tensor', 'FusedTensor'):
    add(f'{m} max_degree=2', [feat('x', 1, 1, 1), feat('y', 1, 1, 1)], mod('e3x.nn.' + m, max_degree=2), 'layer', 8)
    add(f'{m} max_degree=0', [feat('x', 2, 1), feat('y', 1, 1)], mod('e3x.nn.' + m, max_degree=0), 'layer', 3)
    add(f'{m} scalars', [feat('x', 1, 0), feat('y', 1, 0)], mod('e3x.nn.' + m), 'layer')
  for fused in (True, False):
    add(f'TensorDense fused={fused}', [feat('x', 2, 1, 1)], mod('e3x.nn.TensorDense', use_fused_tensor=fused, features=2), 'layer', 8)
  for fmt in ('dense', 'sparse'):
    g = ('unequal', fmt, 1)
    n, edges = GRAPHS['unequal']
    m = layout(g, ()).shape
    idx = [In('adj', m, 'src', g)] if fmt == 'dense' else [In('dst', m, 'dst', g), In('src', m, 'src', g)]
    names = ['adj_idx'] if fmt == 'dense' else ['dst_idx', 'src_idx']
    wh = [In('where', m, 'where', g)] if fmt == 'dense' else []
    whn = ['where'] if fmt == 'dense' else []
    b = In('basis', (*m, 1, 4, 2), 'edge')
    c = In('cut', m, 'edge')
    x = In('x', (n, 1, 4, 2))
    q = In('q', (n, 1, 4, 2))
    add(f'MessagePass {fmt}', [x, b, *idx], mod('e3x.nn.MessagePass', *names), 'layer', 20)
    add(f'MessagePass weights {fmt}', [x, b, In('w', (*m, 1, 1, 2), 'edge'), *idx], mod('e3x.nn.MessagePass', *names, max_degree=1), 'layer', 20)
    for o in (dict(), dict(num_heads=2), dict(use_relative_positional_encoding_qk=False), dict(use_relative_positional_encoding_v=False)):
      add(f'SelfAttention {fmt} {o}', [x, b, c, *idx], mod('e3x.nn.SelfAttention', *names, max_degree=1, **o), 'layer', 40)
      add(f'MultiHeadAttention {fmt} {o}', [q, x, b, *idx], mod('e3x.nn.MultiHeadAttention', *names, max_degree=0, **o), 'layer', 40)
    sg = {} if fmt == 'dense' else dict(num_segments=n)
    di = idx if fmt == 'dense' else idx[:1]
    dn = names if fmt == 'dense' else names[:1]
    for shape in ((), (2,)):
      v = In('v', (*m, *shape), 'edge')
      for r in ('sum', 'min', 'max'):
        for kd in (False, True):
          add(f'indexed_{r} {fmt} {shape} keepdims={kd}', [v, *di, *wh], kwfun('e3x.ops.indexed_' + r, [*dn, *whn], keepdims=kd, **sg), 'indexed')
      add(f'indexed_softmax {fmt} {shape}', [v, *di, *wh], kwfun('e3x.ops.indexed_softmax', [*dn, *whn], **sg), 'indexed', 2)
      add(f'indexed_softmax mask {fmt} {shape}', [v, In('c', (*m, *shape), 'edge'), *di, *wh], kwfun('e3x.ops.indexed_softmax', ['multiplicative_mask', *dn, *whn], **sg), 'indexed', 2)
      xs = In('x', (n, *shape))
      add(f'gather_src {fmt} {shape}', [xs, *(idx if fmt == 'dense' else idx[1:])], kwfun('e3x.ops.gather_src', names if fmt == 'dense' else names[1:]), 'indexed')
      add(f'gather_dst {fmt} {shape}', [xs, *di], kwfun('e3x.ops.gather_dst', dn), 'indexed')
  # safe operations
  for sh, ax in (((3,), -1), ((2, 3), -1), ((2, 3), (-2, -1)), ((3, 2), -2)):
    for kd in (False, True):
      add(f'norm {sh} axis={ax} keepdims={kd}', [In('x', sh)], fun('e3x.ops.norm', axis=ax, keepdims=kd), 'safe')
      add(f'normalize_and_return_norm {sh} axis={ax} keepdims={kd}', [In('x', sh)], fun('e3x.ops.normalize_and_return_norm', axis=ax, keepdims=kd), 'safe')
    add(f'normalize {sh} axis={ax}', [In('x', sh)], fun('e3x.ops.normalize', axis=ax), 'safe')
  add('inverse_softplus', [In('x')], fun('e3x.ops.inverse_softplus'), 'safe')
  # basis
  for rad, cut, damp in (('basic_gaussian', None, None), ('reciprocal_bernstein', 'smooth_cutoff', 'smooth_damping'),
                         ('basic_fourier', 'cosine_cutoff', None), ('exponential_chebyshev', None, 'smooth_damping'), ('sinc', 'smooth_cutoff', None)):
    def call(s, r, rad=rad, cut=cut, damp=damp):
      kw = dict(max_degree=2, num=2, radial_fn=s.get('e3x.nn.' + rad))
      if cut:
        kw.update(cutoff_fn=s.get('e3x.nn.' + cut), return_cutoff=True)
      if damp:
        kw['damping_fn'] = s.get('e3x.nn.' + damp)
      return s.get('e3x.nn.basis')(r, return_norm=True, **kw)
    add(f'basis {rad} {cut} {damp}', [In('r', (3,))], call, 'basis', 3)

  def eb(s, r):
    return s.module('e3x.nn.ExponentialBasis')(r, max_degree=1, num=2, radial_fn=s.get('e3x.nn.exponential_gaussian'),
                                               cutoff_fn=s.get('e3x.nn.smooth_cutoff'))
  add('ExponentialBasis', [In('r', (3,))], eb, 'basis', 3)
  # so3
  for L in (0, 1, 2):
    for cart in (True, False):
      add(f'spherical_harmonics {L} cartesian={cart}', [In('r', (3,))], fun('e3x.so3.spherical_harmonics', max_degree=L, cartesian_order=cart), 'so3', 2)
      add(f'solid_harmonics {L} cartesian={cart}', [In('r', (3,))], fun('e3x.so3.solid_harmonics', max_degree=L, cartesian_order=cart), 'so3', 2)
      if L:
        add(f'irreps_to_tensor {L} cartesian={cart}', [In('x', (2 * L + 1,))], fun('e3x.so3.irreps_to_tensor', degree=L, cartesian_order=cart), 'so3')
        add(f'tensor_to_irreps {L} cartesian={cart}', [In('x', (3,) * L)], fun('e3x.so3.tensor_to_irreps', degree=L, cartesian_order=cart), 'so3')
      if L < 2 or th:
        add(f'wigner_d {L} cartesian={cart}', [In('rot', (3, 3))], fun('e3x.so3.wigner_d', max_degree=L, cartesian_order=cart), 'so3', 3 if L < 2 else 60)
  add('irreps_to_tensor 0', [In('x', (1,))], fun('e3x.so3.irreps_to_tensor', degree=0), 'so3')
  add('tensor_to_irreps 0', [In('x', (1,))], fun('e3x.so3.tensor_to_irreps', degree=0), 'so3')
  add('rotation', [In('axis', (3,)), In('angle')], fun('e3x.so3.rotation'), 'so3')
  add('rotation_euler', [In('a'), In('b'), In('c')], fun('e3x.so3.rotation_euler'), 'so3')
  add('euler_angles_from_rotation', [In('rot', (3, 3))], fun('e3x.so3.euler_angles_from_rotation'), 'so3')
  add('alignment_rotation', [In('u', (3,)), In('v', (3,))], fun('e3x.so3.alignment_rotation'), 'so3')
  add('random_rotation', [In('key', kind='key')], fun('e3x.so3.random_rotation', num=2), 'random', batch=False)
  add('random_rotation perturbation', [In('key', kind='key'), In('p')],
      lambda s, k, p: s.get('e3x.so3.random_rotation')(k, perturbation=p, num=1), 'random', batch=False)
  # matrices
  for degrees, mult, top in (((0, 1), 1, 2), ((0, 1), 2, 1), ((1, 0, 1), 1, 2)):
    mult_l = {}
    for la, lb in itertools.product(degrees, degrees):
      for l in range(abs(la - lb), min(la + lb, top) + 1):
        mult_l[l] = mult_l.get(l, 0) + 1
    ins = [In(f'irreps{l}', (2 * l + 1, mult_l.get(l, 0) * mult * mult)) for l in range(top + 1)]
    for shift in (False, True):
      def sq(s, *xs, degrees=degrees, mult=mult, top=top, shift=shift):
        return s.get('e3x.matrix.make_square_matrix')(list(xs), degrees=degrees, mult=mult, max_degree=top, shift_by_id=shift, precision=None)
      add(f'make_square_matrix {degrees} mult={mult} shift={shift}', ins, sq, 'matrix', 3, False)
      side = sum(2 * l + 1 for l in degrees) * mult

      def tr(s, m, degrees=degrees, mult=mult, shift=shift):
        return s.get('e3x.matrix.matmat.get_traces')(m, degrees, mult, shift)
      add(f'get_traces {degrees} mult={mult} shift={shift}', [In('mat', (side, side))], tr, 'matrix', 1, False)

  def ci(s, x, *w):
    return s.get('e3x.matrix.matmat.combine_irreps')(x, list(w), None)
  add('combine_irreps', [In('x', (4, 3))] + [In(f'w{l}', (3, 2)) for l in range(2)], ci, 'matrix', 1, False)
  add('init_matrix_irreps_weights', [In('key', kind='key')],
      lambda s, k: s.get('e3x.matrix.init_matrix_irreps_weights')(k, 2, {0: 2, 1: 1}, 1, 0.5), 'random', 1, False)

  def ed(s, x):
    j = s.w.lib['jax.numpy']
    return s.get('e3x.ops.evaluate_derivatives')(lambda v: j.exp(v) * v, x, max_order=2)
  add('evaluate_derivatives', [In('x', (2,))], ed, 'safe', 1)
  # initialisers
  for n in ('tensor_glorot_uniform', 'tensor_glorot_normal', 'tensor_lecun_uniform', 'tensor_lecun_normal', 'tensor_he_uniform', 'tensor_he_normal'):
    add(n, [In('key', kind='key')], lambda s, k, n=n: s.get('e3x.nn.initializers.' + n)()(k, (2, 2, 1, 2, 2, 2, 2)), 'random', 2, False)
  for n in ('fused_tensor_normal', 'fused_tensor_uniform'):
    add(n, [In('key', kind='key')], lambda s, k, n=n: s.get('e3x.nn.initializers.' + n)(0.5)(k, (3, 2)), 'random', 1, False)
  return ops
