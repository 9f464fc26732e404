"""C21: layers connect everything that symmetry allows, by separate weights.

Each layer is interpreted on typed input atoms with every parameter entry and every
coupling coefficient an atom of its own; the output is expanded into monomials.  A monomial
names the connection it belongs to (output block, input blocks) and the product of
parameter entries that weighs it.  Rule 'complete': every connection allowed by the triangle
and parity rules within the requested degrees has a weighted monomial at every component.
Rule 'separate': no product of parameter entries weighs two different connections.  Rule
'shape': outputs have exactly the documented shape.
"""

import itertools

import numpy as np

from .. import arr as A
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..run import Obligation as Ob
from .c01 import edges, expected_P3, graph


def session():
  s = rep.Session(fold=False)
  run.WORLDS.append(s.w)
  return s


def block(a):
  """(name, p, l, f) of an input atom, its leading index dropped."""
  name, b, p, l, f = a.key[1]
  return name, p, l, f


def monomials(e):
  """(parameter entries, input blocks, other atoms) of every monomial."""
  for mon, c in poly.lift(e).items():
    if c == 0:
      continue
    par, ins = [], []
    for i in mon:
      a = poly._ATOMS[i]
      if a.kind == 'par':
        par.append(a.key[1])
      elif a.kind == 'in' and a.slots is not None and len(a.key[1]) == 5:
        ins.append(block(a))
    yield tuple(sorted(par, key=repr)), tuple(sorted(ins)), mon


def blocks(P, L):
  return [(p, l) for p in range(P) for l in range(L + 1)]


def allowed(P1, b1, P2, b2, P3, b3):
  (p1, l1), (p2, l2), (p3, l3) = b1, b2, b3
  if not abs(l1 - l2) <= l3 <= l1 + l2:
    return False
  return rep.parity(P1, p1, l1) * rep.parity(P2, p2, l2) == rep.parity(P3, p3, l3)


class Judge:
  """Collects the connections of an output and decides the rules."""

  def __init__(self, what):
    self.what = what
    self.owner = {}
    self.out = []
    self.facts = 0

  def fail(self, rule, msg):
    self.out.append(run.Finding(rule, self.what, f'{self.what}: {msg}'))

  def shape(self, z, want):
    if tuple(z.shape) != tuple(want):
      self.fail('shape', f'output of shape {tuple(z.shape)} instead of {tuple(want)}')
      return False
    return True

  def element(self, e, target, need, label):
    """target: output block; need: list of sorted input-block tuples; label: ix text."""
    have = {}
    for par, ins, _ in monomials(e):
      if not par:
        continue
      have.setdefault(ins, set()).add(par)
    for ins in need:
      self.facts += 1
      ps = have.get(ins)
      if not ps:
        self.fail('complete', f'output {label} has no weighted contribution of {show(ins)}')
        return False
      for q in ps:
        o = self.owner.setdefault(q, (target, ins))
        if o != (target, ins):
          self.fail('separate', f'the weight {" * ".join(f"{n}{list(i)}" for n, i in q)} connects both {show(o[1])} to output {o[0]} and {show(ins)} to output {target}')
          return False
    return True

  def result(self):
    return dict(problems=self.out, facts=self.facts)


def show(ins):
  return ' x '.join(f'{n}[parity channel {p}, degree {l}, feature {f}]' for n, p, l, f in ins) or 'a constant'


def visit(z, P, L, F, lead, j, need):
  """Judges all elements; need(p, l, f) gives the demanded connections."""
  for b in lead:
    for p, l in blocks(P, L):
      for f in range(F):
        nd = need(p, l, f)
        for k in range(2 * l + 1):
          if not j.element(z.a[(*b, p, l * l + k, f)], (p, l, f), nd, f'[parity channel {p}, degree {l}, component {k}, feature {f}]'):
            return


def dense(P, L, F, out, bias, lead):
  s = session()
  x = rep.features('x', lead, P, L, F)
  z = A.asarr(s.module('e3x.nn.Dense', features=out, use_bias=bias)(x))
  j = Judge(f'Dense(features={out}, use_bias={bias}) of features {(*lead, P, (L + 1) ** 2, F)}')
  if j.shape(z, (*lead, P, (L + 1) ** 2, out)):
    def need(p, l, f):
      n = [(('x', p, l, i),) for i in range(F)]
      if bias and l == 0 and p == 0:
        n.append(())
      return n
    visit(z, P, L, out, list(np.ndindex(*lead)), j, need)
  return j.result()


def tensor(mod, P1, L1, P2, L2, L3, ps, F, cart=True):
  s = session()
  x = rep.features('x', (), P1, L1, F, cart)
  y = rep.features('y', (), P2, L2, F, cart)
  z = A.asarr(s.module('e3x.nn.' + mod, max_degree=L3, include_pseudotensors=ps, cartesian_order=cart)(x, y))
  l3 = max(L1, L2) if L3 is None else L3
  P3 = expected_P3(P1, P2, L1, L2, l3, ps)
  j = Judge(f'{mod}(max_degree={L3}, include_pseudotensors={ps}) of features with {P1} and {P2} parity channels and degrees up to {L1} and {L2}')
  if j.shape(z, (P3, (l3 + 1) ** 2, F)):
    def need(p, l, f):
      return [(('x', *b1, f), ('y', *b2, f)) for b1 in blocks(P1, L1) for b2 in blocks(P2, L2) if allowed(P1, b1, P2, b2, P3, (p, l))]
    visit(z, P3, l3, F, [()], j, need)
    if mod == 'FusedTensor' and not j.out:
      factors(z, j, P1, P2, P3, l3, F)
  return j.result()


def only(x, P, L, keep):
  """Features whose blocks outside keep are zero."""
  a = x.a.copy()
  for p, l in blocks(P, L):
    if (p, l) not in keep:
      a[..., p, l * l:(l + 1) ** 2, :] = 0
  return A.Arr(A._obj(a), x.dtype, False, True)


def tensor_blocks(mod, P1, L1, P2, L2, L3, ps, k1, k2):
  """High degrees: only the blocks of degree k1 and k2 of the inputs are non-zero."""
  s = session()
  b1s, b2s = [[b for b in blocks(P, L) if b[1] == k] for P, L, k in ((P1, L1, k1), (P2, L2, k2))]
  x = only(rep.features('x', (), P1, L1, 1), P1, L1, b1s)
  y = only(rep.features('y', (), P2, L2, 1), P2, L2, b2s)
  z = A.asarr(s.module('e3x.nn.' + mod, max_degree=L3, include_pseudotensors=ps)(x, y))
  P3 = expected_P3(P1, P2, L1, L2, L3, ps)
  j = Judge(f'{mod}(max_degree={L3}, include_pseudotensors={ps}) of features with {P1} and {P2} parity channels and degrees up to {L1} and {L2}')
  if j.shape(z, (P3, (L3 + 1) ** 2, 1)):
    def need(p, l, f):
      return [(('x', *b1, f), ('y', *b2, f)) for b1 in b1s for b2 in b2s if allowed(P1, b1, P2, b2, P3, (p, l))]
    visit(z, P3, L3, 1, [()], j, need)
  return j.result()


def factors(z, j, P1, P2, P3, L3, F):
  """Factorised weights: every input block and every coupling target has a factor of its own."""
  group = {}
  for p, l in blocks(P3, L3):
    for f, k in itertools.product(range(F), range(2 * l + 1)):
      for par, ins, _ in monomials(z.a[p, l * l + k, f]):
        if len(ins) != 2:
          continue
        q = [rep.parity(P, i[1], i[2]) for P, i in zip((P1, P2), ins)]
        for key in (('input', ins[0]), ('input', ins[1]), ('coupling of parities', (q[0], q[1], 'to output degree', l, 'feature', f))):
          group.setdefault(key, []).append(set(par))
  where = {}
  for key, ps in group.items():
    for e in set().union(*ps):
      where.setdefault((key[0] if key[0] != 'input' else key[1][0], e), set()).add(key)
  for key, ps in group.items():
    j.facts += 1
    kind = key[0] if key[0] != 'input' else key[1][0]
    if not any(where[kind, e] == {key} for e in set.intersection(*ps)):
      j.fail('separate', f'{show((key[1],)) if key[0] == "input" else " ".join(map(str, (key[0], *key[1])))} has no weight of its own')
      return


def tensor_dense(P, L, F, feats, L3, ps, fused, bias):
  s = session()
  x = rep.features('x', (), P, L, F)
  z = A.asarr(s.module('e3x.nn.TensorDense', features=feats, max_degree=L3, include_pseudotensors=ps, use_fused_tensor=fused, use_bias=bias)(x))
  l3 = L if L3 is None else L3
  P3 = expected_P3(P, P, L, L, l3, ps)
  j = Judge(f'TensorDense(features={feats}, max_degree={L3}, include_pseudotensors={ps}, use_fused_tensor={fused}, use_bias={bias}) of features {(P, (L + 1) ** 2, F)}')
  if j.shape(z, (P3, (l3 + 1) ** 2, feats or F)):
    def need(p, l, f):
      n = set()
      for b1, b2 in itertools.product(blocks(P, L), repeat=2):
        if allowed(P, b1, P, b2, P3, (p, l)):
          for i, k in itertools.product(range(F), repeat=2):
            n.add(tuple(sorted([('x', *b1, i), ('x', *b2, k)])))
      return sorted(n)
    visit(z, P3, l3, feats or F, [()], j, need)
  return j.result()


def message_pass(P, L, F, Lb, Fb, L3, ps, fused, fmt):
  s = session()
  n = 3
  x = rep.features('x', (n,), P, L, F)
  b = rep.features('b', edges(fmt, n), 1, Lb, Fb)
  z = A.asarr(s.module('e3x.nn.MessagePass', max_degree=L3, include_pseudotensors=ps, use_fused_tensor=fused)(x, b, **graph(fmt, n, ())))
  l3 = max(L, Lb) if L3 is None else L3
  P3 = expected_P3(1, P, Lb, L, l3, ps)
  j = Judge(f'MessagePass(max_degree={L3}, include_pseudotensors={ps}, use_fused_tensor={fused}) of features {(n, P, (L + 1) ** 2, F)} and a basis with {Fb} functions up to degree {Lb} ({fmt})')
  if j.shape(z, (n, P3, (l3 + 1) ** 2, F)):
    def need(p, l, f):
      return [(('b', *b1, i), ('x', *b2, f)) for b1 in blocks(1, Lb) for b2 in blocks(P, L) for i in range(Fb) if allowed(1, b1, P, b2, P3, (p, l))]
    visit(z, P3, l3, F, [(0,), (1,)], j, need)
  return j.result()


def fn_arguments(e, seen, out):
  """All argument terms of function atoms below a term."""
  for mon in poly.lift(e):
    for i in mon:
      if i in seen:
        continue
      seen.add(i)
      for y in poly._ATOMS[i].args:
        if isinstance(y, poly.Poly):
          out.append(y)
          fn_arguments(y, seen, out)


def attention(cls, Pq, Lq, Pk, Lk, Lb, L3, ps, fused, fmt, heads, relqk, relv, F, outf=None):
  s = session()
  n = 3
  xq = rep.features('q', (n,), Pq, Lq, F)
  self_ = cls == 'SelfAttention'
  xk = xq if self_ else rep.features('k', (n,), Pk, Lk, F)
  kw = graph(fmt, n, ())
  if relqk or relv:
    kw['basis'] = rep.features('b', edges(fmt, n), 1, Lb, 1)
  m = s.module('e3x.nn.' + cls, max_degree=L3, include_pseudotensors=ps, use_fused_tensor=fused, num_heads=heads, out_features=outf,
               use_relative_positional_encoding_qk=relqk, use_relative_positional_encoding_v=relv)
  z = A.asarr(m(xq, **kw) if self_ else m(xq, xk, **kw))
  if self_:
    Pk, Lk = Pq, Lq
  if relv:
    l3 = max(Lk, Lb) if L3 is None else L3
    P3 = expected_P3(1, Pk, Lb, Lk, l3, ps)
  else:
    l3, P3 = Lk, Pk
  kn = 'q' if self_ else 'k'
  j = Judge(f'{cls}(max_degree={L3}, include_pseudotensors={ps}, use_fused_tensor={fused}, num_heads={heads}, relative encodings {relqk}/{relv}) of queries {(Pq, (Lq + 1) ** 2, F)} and keys {(Pk, (Lk + 1) ** 2, F)} ({fmt})')
  if j.shape(z, (n, P3, (l3 + 1) ** 2, outf or F)):
    def need(p, l, f):
      if relv:
        c = [(b1, b2) for b1 in blocks(1, Lb) for b2 in blocks(Pk, Lk) if allowed(1, b1, Pk, b2, P3, (p, l))]
        return [tuple(sorted([('b', *b1, 0), (kn, *b2, i)])) for b1, b2 in c for i in range(F)]
      return [((kn, p, l, i),) for i in range(F)]
    visit(z, P3, l3, outf or F, [(0,)], j, need)
    if not j.out:
      terms = []
      fn_arguments(z.a[(0, 0, 0, 0)], set(), terms)
      have = {}
      for t in terms:
        for par, ins, _ in monomials(t):
          q = tuple(i for i in ins if i[0] != 'b')
          if len(q) == 2 and par:
            have.setdefault(q, set()).add(par)
      Pm, Lm = (2 if Pq == Pk == 2 else 1), min(Lq, Lk)
      if not have:
        raise Unsupported('attention scores not found')
      owner = {}
      chan = lambda P, p, l: p if P == Pm else (l % 2 if P == 2 else 0)
      for (p, l), i, k in itertools.product(blocks(Pm, Lm), range(F), range(F)):
        key = tuple(sorted([('q', chan(Pq, p, l), l, i), (kn, chan(Pk, p, l), l, k)]))
        j.facts += 1
        if key not in have:
          j.fail('complete', f'the attention scores have no weighted contribution of {show(key)}')
          break
        for w in have[key]:
          o = owner.setdefault(w, key)
          if o != key:
            j.fail('separate', f'one product of weights scores both {show(o)} and {show(key)}')
            break
        if j.out:
          break
  return j.result()


def embed(num, F, shape):
  s = session()
  idx = np.arange(int(np.prod(shape))).reshape(shape) % num
  z = A.asarr(s.module('e3x.nn.Embed', num_embeddings=num, features=F)(rep.ints(idx)))
  j = Judge(f'Embed(num_embeddings={num}, features={F}) of indices {shape}')
  owner = {}
  if j.shape(z, (*shape, 1, 1, F)):
    for b in np.ndindex(*shape):
      for f in range(F):
        ms = list(monomials(z.a[(*b, 0, 0, f)]))
        if len(ms) != 1 or len(ms[0][0]) != 1:
          j.fail('complete', f'the embedding of index {idx[b]}, feature {f} is not one parameter entry')
          return j.result()
        j.facts += 1
        k = (int(idx[b]), f)
        if owner.setdefault(ms[0][0], k) != k:
          j.fail('separate', f'{owner[ms[0][0]]} and {k} (index, feature) share a parameter entry')
          return j.result()
    if len({v for v in owner.values()}) != len(owner):
      j.fail('separate', 'one index has several embeddings')
  return j.result()


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  mined = [m for m in run.mined_ints(3, 9, files=('modules.py', 'features.py')) if m <= (6 if th else 4)]

  def add(name, fn, args, cost=1.0):
    obs.append(Ob(name, fn, args, 'connections', cost=cost))

  for num, F, sh in ((1, 1, ()), (4, 3, (5,)), (3, 2, (2, 3)), (7, 1, (7,))):
    add(f'Embed {num} {F} {sh}', embed, (num, F, sh))
  for P, L, bias in itertools.product((1, 2), sorted(set(range(5)) | set(mined)), (True, False)):
    for F, out in ((1, 1), (2, 3), (3, 2)):
      add(f'Dense P={P} L={L} bias={bias} {F}->{out}', dense, (P, L, F, out, bias, ()))
  for P in (1, 2):
    add(f'Dense P={P} leading axes', dense, (P, 2, 2, 2, True, (2, 2)))
  top = 3 if th else 2
  for P1, P2, ps in itertools.product((1, 2), (1, 2), (True, False)):
    for L1, L2 in itertools.product(range(top + 1), repeat=2):
      for L3 in [None] + list(range(L1 + L2 + 1)):
        add(f'Tensor P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps}', tensor,
            ('Tensor', P1, L1, P2, L2, L3, ps, 2 if L1 + L2 < 3 else 1, L1 != 1), cost=1 + (L1 + 1) ** 2 * (L2 + 1) ** 2)
        if max(L1, L2, L3 or 0) <= 2 and (max(L1, L2, L3 or 0) < 2 or th or min(L1, L2) < 2):
          add(f'FusedTensor P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps}', tensor,
              ('FusedTensor', P1, L1, P2, L2, L3, ps, 1 if L1 + L2 > 2 else 2, L1 != 1), cost=4 * (1 + (L1 + 1) ** 2 * (L2 + 1) ** 2))
  for m in sorted({3, 5} | {m for m in run.mined_ints(3, 9, files=('modules.py', 'features.py')) if m <= 6} | ({4, 6} if th else set())):
    for L1, L2, L3 in ((m, 1, m), (1, m, m), (m // 2, m - m // 2, m), (m, m, 0), (m, 2, m - 2)):
      for P1, P2, ps in ((1, 1, True), (2, 2, True), (2, 1, False)):
        if P1 * P2 > 1 and not th and (L1, L2, L3) not in ((m, 1, m), (m, m, 0)):
          continue
        for mod in ('FusedTensor', 'Tensor'):
          add(f'{mod} P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps} top blocks', tensor_blocks, (mod, P1, L1, P2, L2, L3, ps, L1, L2), cost=10 + (150 * P1 * P2 if mod == 'FusedTensor' else 0))
  for m in mined:
    for L1, L2, L3 in ((m, 1, m), (1, m, m), (m, m, 0)):
      for P1, P2, ps in ((2, 2, True), (1, 1, True), (1, 2, True), (2, 2, False)):
        if P1 * P2 * m > 8 and not th:
          continue
        add(f'Tensor P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps} big', tensor, ('Tensor', P1, L1, P2, L2, L3, ps, 1), cost=60)
  for P, L, L3, ps, fused, bias in itertools.product((1, 2), (0, 1), (None, 0, 2), (True, False), (True, False), (True, False)):
    if L3 is not None and L3 > 2 * L or (fused and L3 == 2):
      continue
    add(f'TensorDense P={P} L={L} max_degree={L3} pseudo={ps} fused={fused} bias={bias}', tensor_dense, (P, L, 2 if not bias else 1, 2 if not bias else None, L3, ps, fused, bias), cost=20)
  for P, L, Lb, ps, fused, fmt in itertools.product((1, 2), (0, 1, 2), (0, 1, 2), (True, False), (True, False), ('dense', 'sparse')):
    if L + Lb > 3 or (fused and L + Lb > 2) or (fmt == 'sparse' and not th and (L + Lb) % 2):
      continue
    add(f'MessagePass P={P} L={L} basis L={Lb} pseudo={ps} fused={fused} {fmt}', message_pass, (P, L, 2 if L + Lb < 2 else 1, Lb, 2 if L + Lb < 3 else 1, None, ps, fused, fmt), cost=30)
  for cls in ('MultiHeadAttention', 'SelfAttention'):
    for Pq, Pk, fmt, heads, relqk, relv in itertools.product((1, 2), (1, 2), ('dense', 'sparse'), (1, 2), (True, False), (True, False)):
      if cls == 'SelfAttention' and Pk != Pq:
        continue
      if not th and (heads == 2) != (fmt == 'sparse'):
        continue
      for Lq, Lk in ((1, 1), (0, 1), (1, 0)):
        if cls == 'SelfAttention' and Lq != Lk:
          continue
        add(f'{cls} Pq={Pq} Lq={Lq} Pk={Pk} Lk={Lk} {fmt} heads={heads} relqk={relqk} relv={relv}', attention,
            (cls, Pq, Lq, Pk, Lk, 1, None, True, False, fmt, heads, relqk, relv, 2, None if Lq else 3), cost=60)
    add(f'{cls} fused', attention, (cls, 2, 1, 2, 1, 1, None, True, True, 'dense', 1, True, True, 1), cost=60)
    add(f'{cls} no pseudotensors', attention, (cls, 2, 1, 2, 1, 1, None, False, False, 'dense', 1, True, True, 1), cost=60)
    add(f'{cls} max_degree=2', attention, (cls, 1, 1, 1, 1, 1, 2, True, False, 'dense', 1, True, True, 1), cost=60)
  return obs
