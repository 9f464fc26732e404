"""C28: layers compute their documented formulas.

Each layer is interpreted on uninterpreted features and weights with every coupling
coefficient an atom of its own; every output element is expanded into monomials and
compared with the documented sum.  Rule 'terms': the monomials (input components, coupling
coefficients, pair weights) are exactly those of the formula, each with the factor of the formula and
the documented number of weights.  Rule 'weights': all components of one path (blocks and
features) are weighted by the same parameter entries, which for tensor products are those the
initializers prepare for that path.
"""

import collections
import itertools

import numpy as np

from .. import arr as A
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..run import Obligation as Ob
from .c01 import edges, expected_P3, graph
from .c21 import blocks, only, session


def slots(lm):
  return tuple(q for q in lm if q[0])


def cg(*lm):
  return slots(lm)


def split(e):
  """[(coefficient, parameter entries, input components, coupling coefficients, other)]."""
  out = []
  for mon, c in poly.lift(e).items():
    if c == 0:
      continue
    par, ins, cgs, oth = [], [], [], []
    for i in mon:
      a = poly._ATOMS[i]
      if a.kind == 'par':
        par.append(a.key[1])
      elif a.kind == 'cg':
        cgs.append(slots(a.slots))
      elif a.kind == 'in' and len(a.key[1]) == 5:
        ins.append((a.key[1], slots(a.slots)))
      elif a.kind == 'in':
        ins.append((a.key[1], ()))
      else:
        oth.append(a.name or a.kind)
    out.append((c, tuple(sorted(par, key=repr)), tuple(sorted(ins)), tuple(sorted(cgs)), tuple(sorted(map(str, oth)))))
  return out


def ins_text(ins):
  t = []
  for k, s in ins:
    t.append(f'{k[0]}{list(k[1])}' + (f'[parity channel {k[2]}, degree {k[3]}, order {s[0][1] if s else 0}, feature {k[4]}]' if len(k) == 5 else ''))
  return ' * '.join(t) or 'a constant'


class Judge:

  def __init__(self, what):
    self.what, self.out, self.facts, self.paths = what, [], 0, {}

  def fail(self, rule, msg):
    if len(self.out) < 3:
      self.out.append(run.Finding(rule, self.what, f'{self.what}: {msg}'))

  def shape(self, z, want):
    if tuple(z.shape) != tuple(want):
      self.fail('terms', f'output of shape {tuple(z.shape)} instead of {tuple(want)}')
      return False
    return True

  def element(self, e, want, target, label):
    """want: Counter of (ins, cgs, number of parameters)."""
    got = collections.Counter()
    for c, par, ins, cgs, oth in split(e):
      self.facts += 1
      if oth:
        self.fail('terms', f'output {label}: the term with {ins_text(ins)} depends on {", ".join(oth)}')
        return False
      if not isinstance(c, (int, float)):
        self.fail('terms', f'output {label}: the term with {ins_text(ins)} has the factor {c}')
        return False
      if len(set(par)) < len(par):
        self.fail('weights', f'output {label}: the term with {ins_text(ins)} uses a weight twice')
        return False
      got[ins, cgs, len(par)] += c
      path = (target, tuple((k[0], *k[1:]) for k, _ in ins))
      self.paths.setdefault(path, {}).setdefault((ins, cgs, label), set()).add(par)
    for k in sorted(set(got) | set(want), key=repr):
      if abs(got[k] - want[k]) > 1e-6 * max(1, want[k]):
        self.fail('terms', f'output {label}: the terms with {ins_text(k[0])}, coupling coefficients {list(k[1])} and {k[2]} weights have the factor {got[k]} instead of {want[k]}')
        return False
    return True

  def result(self):
    for path, by in self.paths.items():
      sets = set(map(frozenset, by.values()))
      if len(sets) > 1 and not self.out:
        self.fail('weights', f'components of the path {path[1]} to output {path[0]} are weighted by different parameter entries')
    return dict(problems=self.out, facts=self.facts)


def comp(name, b, p, l, m, f):
  return ((name, b, p, l, f), slots(((l, m),)))


def comps(name, b, P, L, f, keep=None):
  return [(p, l, m, comp(name, b, p, l, m, f)) for p, l in blocks(P, L) if keep is None or l in keep for m in range(-l, l + 1)]


def visit(z, j, P, L, F, lead, cart, want):
  for b in lead:
    for p, l in blocks(P, L):
      for k, m in enumerate(rep.orders(l, cart)):
        for f in range(F):
          if not j.element(z.a[(*b, p, l * l + k, f)], want(b, p, l, m, f), (p, l, f), f'{list(b) or ""}[parity channel {p}, degree {l}, order {m}, feature {f}]'):
            return


def couple(mod, xs, P1, L1, ys, P2, L2, P3, L3, p, l, m):
  """Counter of the coupling terms of an output component: (x, y, cgs, weights)."""
  out = collections.Counter()
  q3 = rep.parity(P3, p, l)
  md = (max(L1, L2, L3) + 1) // 2
  for (p1, l1, m1, x), (p2, l2, m2, y) in itertools.product(xs, ys):
    if rep.parity(P1, p1, l1) * rep.parity(P2, p2, l2) != q3:
      continue
    if mod == 'Tensor':
      if abs(l1 - l2) <= l <= l1 + l2:
        g = () if l1 == l2 == l == 0 else (cg((l1, m1), (l2, m2), (l, m)),)
        out[x, y, g, 1] += 1
      continue
    for a, b, c in itertools.product(range(-md, md + 1), repeat=3):
      g = [cg((md, a), (md, b), (l1, m1)), cg((md, b), (md, c), (l2, m2)), cg((md, a), (md, c), (l, m))]
      out[x, y, tuple(sorted(t for t in g if md or any(q[0] for q in t))), 3] += 1
  return out


def key(ins, cgs, n):
  return tuple(sorted(ins)), tuple(sorted(cgs)), n


def dense(P, L, F, out, bias, lead):
  s = session()
  x = rep.features('x', lead, P, L, F)
  z = A.asarr(s.module('e3x.nn.Dense', features=out, use_bias=bias)(x))
  j = Judge(f'Dense(features={out}, use_bias={bias}) of features {(*lead, P, (L + 1) ** 2, F)}')
  if j.shape(z, (*lead, P, (L + 1) ** 2, out)):
    def want(b, p, l, m, f):
      w = collections.Counter()
      for i in range(F):
        w[key([comp('x', b, p, l, m, i)], (), 1)] += 1
      if bias and l == 0 and p == 0:
        w[key([], (), 1)] += 1
      return w
    visit(z, j, P, L, out, list(np.ndindex(*lead)), True, want)
  return j.result()


def tensor(mod, P1, L1, P2, L2, L3, ps, F, cart, lead=(), top=False):
  s = session()
  x = rep.features('x', lead, P1, L1, F, cart)
  y = rep.features('y', lead, P2, L2, F, cart)
  k1 = k2 = None
  if top:
    k1, k2 = (L1,), (L2,)
    x = only(x, P1, L1, [b for b in blocks(P1, L1) if b[1] == L1])
    y = only(y, P2, L2, [b for b in blocks(P2, L2) if b[1] == L2])
  z = A.asarr(s.module('e3x.nn.' + mod, max_degree=L3, include_pseudotensors=ps, cartesian_order=cart)(x, y))
  l3 = max(L1, L2) if L3 is None else L3
  P3 = expected_P3(P1, P2, L1, L2, l3, ps)
  j = Judge(f'{mod}(max_degree={L3}, include_pseudotensors={ps}, cartesian_order={cart}) of features with {P1} and {P2} parity channels and degrees up to {L1} and {L2}')
  if j.shape(z, (*lead, P3, (l3 + 1) ** 2, F)):
    def want(b, p, l, m, f):
      w = collections.Counter()
      for (a, c, g, n), k in couple(mod, comps('x', b, P1, L1, f, k1), P1, L1, comps('y', b, P2, L2, f, k2), P2, L2, P3, l3, p, l, m).items():
        w[key([a, c], g, n)] += k
      return w
    visit(z, j, P3, l3, F, list(np.ndindex(*lead)), cart, want)
    layout(j, mod, P1, P2, P3)
  return j.result()


def layout(j, mod, P1, P2, P3):
  """The weights of each path are the entries that the initializers prepare for it."""
  for ((p, l, f), (a, b)), by in j.paths.items():
    if mod == 'Tensor':
      want = [('kernel', (a[2], a[3], b[2], b[3], p, l, f))]
    else:
      q = ['e' if rep.parity(*t) == 1 else 'o' for t in ((P1, a[2], a[3]), (P2, b[2], b[3]), (P3, p, l))]
      want = [(f'kernel_{q[0]}1', (a[3], f)), (f'kernel_{q[1]}2', (b[3], f)), ('kernel_' + ''.join(q), (l, f))]
    want = tuple(sorted(want, key=repr))
    for v in by.values():
      j.facts += 1
      if v != {want}:
        names = {t[0] for u in v for t in u}
        if not names <= {'kernel', *(f'kernel_{t}{i}' for t in 'eo' for i in '12'), 'kernel_eee', 'kernel_ooe', 'kernel_eoo', 'kernel_oeo'}:
          raise Unsupported(f'{j.what}: parameters {sorted(names)}')
        j.fail('weights', f'the path from the input blocks {a[2:4]}, {b[2:4]} to the output block {(p, l)} is weighted by the entries {sorted(v)[0]} instead of {want}')
        return


def tensor_dense(P, L, F, feats, L3, ps, cart, fused, bias):
  s = session()
  x = rep.features('x', (), P, L, F, cart)
  z = A.asarr(s.module('e3x.nn.TensorDense', features=feats, max_degree=L3, include_pseudotensors=ps, cartesian_order=cart, use_fused_tensor=fused, use_bias=bias)(x))
  l3 = L if L3 is None else L3
  P3 = expected_P3(P, P, L, L, l3, ps)
  n = F if feats is None else feats
  mod = 'FusedTensor' if fused else 'Tensor'
  j = Judge(f'TensorDense(features={feats}, max_degree={L3}, include_pseudotensors={ps}, cartesian_order={cart}, use_fused_tensor={fused}, use_bias={bias}) of features {(P, (L + 1) ** 2, F)}')
  if j.shape(z, (P3, (l3 + 1) ** 2, n)):
    # a projected component is the sum over the input features (plus the bias)
    xs = [(p, l, m, (p, l, m)) for p, l in blocks(P, L) for m in range(-l, l + 1)]

    def choices(c):
      p, l, m = c
      out = [[comp('x', (), p, l, m, i)] for i in range(F)]
      return out + [[]] * (bias and p == 0 and l == 0)

    def want(b, p, l, m, f):
      w = collections.Counter()
      for (a, c, g, k), q in couple(mod, xs, P, L, xs, P, L, P3, l3, p, l, m).items():
        for u, v in itertools.product(choices(a), choices(c)):
          w[key(u + v, g, k + 2)] += q
      return w
    visit(z, j, P3, l3, n, [()], cart, want)
    j.paths.clear()            # both halves carry the same input atoms
  return j.result()


def message_pass(P, L, F, Lb, Fb, L3, ps, cart, fused, fmt, weights, bias):
  s = session()
  n = 3
  x = rep.features('x', (n,), P, L, F, cart)
  e = edges(fmt, n)
  bs = rep.features('b', e, 1, Lb, Fb, cart)
  kw = graph(fmt, n, ())
  if weights:
    kw['weights'] = rep.scalars('w', (*e, 1, 1, 1))
  z = A.asarr(s.module('e3x.nn.MessagePass', max_degree=L3, include_pseudotensors=ps, cartesian_order=cart, use_fused_tensor=fused, use_basis_bias=bias)(x, bs, **kw))
  l3 = max(L, Lb) if L3 is None else L3
  P3 = expected_P3(1, P, Lb, L, l3, ps)
  mod = 'FusedTensor' if fused else 'Tensor'
  j = Judge(f'MessagePass(max_degree={L3}, include_pseudotensors={ps}, use_fused_tensor={fused}, use_basis_bias={bias}) of features {(n, P, (L + 1) ** 2, F)} and a basis with {Fb} functions up to degree {Lb} ({fmt}{", weights" if weights else ""})')
  if fmt == 'dense':
    adj = np.array(kw['adj_idx'].a, dtype=int)
    nb = {i: [((i, k), adj[i, k]) for k in range(adj.shape[1]) if adj[i, k] < n] for i in range(n)}
  else:
    d, c = np.array(kw['dst_idx'].a, dtype=int), np.array(kw['src_idx'].a, dtype=int)
    nb = {i: [((k,), c[k]) for k in range(len(d)) if d[k] == i] for i in range(n)}
  if j.shape(z, (n, P3, (l3 + 1) ** 2, F)):
    bl = [(p, l, m, (p, l, m)) for p, l in blocks(1, Lb) for m in range(-l, l + 1)]

    def want(node, p, l, m, f):
      w = collections.Counter()
      for ed, src in nb[node[0]]:
        xs = comps('x', (int(src),), P, L, f)
        for (a, c, g, k), q in couple(mod, bl, 1, Lb, xs, P, L, P3, l3, p, l, m).items():
          for u in [[comp('b', ed, *a, i)] for i in range(Fb)] + [[]] * (bias and a[1] == 0):
            ins = u + [c] + ([(('w', (*ed, 0, 0, 0)), ())] if weights else [])
            w[key(ins, g, k + 1)] += q
      return w
    visit(z, j, P3, l3, F, [(0,), (1,)], cart, want)
    j.paths = {(t, tuple((k[0], *k[2:]) for k in ins)): v for (t, ins), v in j.paths.items()}
  return j.result()


def embed(num, F, idx):
  s = session()
  z = A.asarr(s.module('e3x.nn.Embed', num_embeddings=num, features=F)(rep.ints(idx)))
  idx = np.asarray(idx)
  j = Judge(f'Embed(num_embeddings={num}, features={F}) of indices {idx.tolist()}')
  if j.shape(z, (*idx.shape, 1, 1, F)):
    for b in np.ndindex(*idx.shape):
      for f in range(F):
        t = split(z.a[(*b, 0, 0, f)])
        j.facts += 1
        if len(t) != 1 or t[0][2:] != ((), (), ()) or len(t[0][1]) != 1 or abs(t[0][0] - 1) > 1e-9 or t[0][1][0][1] != (int(idx[b]), 0, 0, f):
          j.fail('terms', f'the entry for index {int(idx[b])}, feature {f} is {z.a[(*b, 0, 0, f)]} instead of one entry of that row of the table')
          break
  return j.result()


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  mined = run.mined_ints(3, 9, files=('modules.py', 'features.py'))

  def add(name, fn, args, cost=1.0):
    obs.append(Ob(name, fn, args, 'formula', cost=cost))

  add('Embed', embed, (4, 2, [[0, 3], [1, 1]]))
  add('Embed scalar', embed, (3, 1, 2))
  for P, L, bias in itertools.product((1, 2), sorted(set(range(4)) | {m for m in mined if m <= 6}), (True, False)):
    for F, out in ((1, 1), (2, 3)):
      add(f'Dense P={P} L={L} bias={bias} {F}->{out}', dense, (P, L, F, out, bias, () if L else (2,)))
  top = 3 if th else 2
  for P1, P2, ps in itertools.product((1, 2), (1, 2), (True, False)):
    for L1, L2 in itertools.product(range(top + 1), repeat=2):
      for L3 in [None] + list(range(L1 + L2 + 1)):
        if L3 is not None and L3 > 3 and not th:
          continue
        cart = (L1 + L2 + (L3 or 0)) % 2 == 0
        add(f'Tensor P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps}', tensor, ('Tensor', P1, L1, P2, L2, L3, ps, 2 if L1 + L2 < 2 else 1, cart), cost=1 + L1 * L2)
        if max(L1, L2, L3 or 0) <= 1 or (max(L1, L2, L3 or 0) == 2 and L1 + L2 <= (4 if th else 2)):
          add(f'FusedTensor P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps}', tensor, ('FusedTensor', P1, L1, P2, L2, L3, ps, 1, cart), cost=5 + 20 * L1 * L2)
  for m in sorted({3} | {m for m in mined if m <= 6} | ({4, 5} if th else set())):
    for L1, L2, L3 in ((m, 1, m), (1, m, m), (m // 2, m - m // 2, m), (m, m, 0), (m, 2, m - 2)):
      for P1, P2, ps in ((1, 1, True), (2, 2, True), (2, 1, False)):
        if P1 * P2 > 1 and not th and (L1, L2, L3) not in ((m, 1, m), (m, m, 0)):
          continue
        for mod in ('Tensor', 'FusedTensor'):
          if mod != 'Tensor' and not th and (P1 * P2 > 1 or (L1, L2, L3) != (1, 3, 3)):
            continue            # top blocks of higher fused degrees: C21
          add(f'{mod} P1={P1} L1={L1} P2={P2} L2={L2} max_degree={L3} pseudo={ps} top blocks', tensor, (mod, P1, L1, P2, L2, L3, ps, 1, True, (), True), cost=20 + (100 if mod != 'Tensor' else 0))
  for mod in ('Tensor', 'FusedTensor'):
    add(f'{mod} leading axes', tensor, (mod, 2, 1, 1, 1, None, True, 1, True, (2,)))
    add(f'{mod} features', tensor, (mod, 1, 1, 2, 1, None, True, 3, True, ()))
  for P, L, L3, ps, fused, bias in itertools.product((1, 2), (0, 1), (None, 0, 1, 2), (True, False), (True, False), (True, False)):
    if L3 is not None and L3 > 2 * L or (fused and L3 == 2 and not th):
      continue
    add(f'TensorDense P={P} L={L} max_degree={L3} pseudo={ps} fused={fused} bias={bias}', tensor_dense, (P, L, 1 if bias and L else 2, None if bias else 2, L3, ps, L3 != 0, fused, bias), cost=20)
  for P, L, Lb, ps, fused, fmt in itertools.product((1, 2), (0, 1, 2), (0, 1, 2), (True, False), (True, False), ('dense', 'sparse')):
    if L + Lb > 3 or (fused and L + Lb > 2) or (not th and L + Lb == 3 and ps is False):
      continue
    add(f'MessagePass P={P} L={L} basis L={Lb} pseudo={ps} fused={fused} {fmt}', message_pass,
        (P, L, 2 if L + Lb < 2 else 1, Lb, 2 if L + Lb < 3 else 1, None, ps, L != 1, fused, fmt, (L + Lb + (fmt == 'dense')) % 2 == 0, Lb != 1), cost=20)
  return obs
