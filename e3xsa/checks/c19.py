"""C19: matrices built from irreps respect the symmetry.

Clebsch-Gordan coefficients are opaque atoms cg[la,ma;lb,mb;l,m] and irreps features typed
atoms.  For every sub-matrix belonging to a pair of shells (row degree la, column degree lb)
the entry at (ma, mb) is expanded; it must be the sum over all l allowed by the triangle
rule (up to the largest degree present) and all m of cg[la,ma;lb,mb;l,m] h[l,m] with one
and the same degree-l feature h for all entries of the sub-matrix.  Every given feature is
used by exactly one sub-matrix.  Shifting adds the identity; traces are the sums of the
diagonal of each sub-matrix; combining features keeps degree and order, connects all shells
by separate weights; initial weights are independent draws of the documented scale; every
contraction uses the given precision.
"""

import itertools
import math

import numpy as np

from .. import arr as A
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..run import Obligation as Ob


def session():
  s = rep.Session(fold=False)
  run.WORLDS.append(s.w)
  return s


def irreps(counts):
  """One array (2l+1, counts[l]) of typed atoms per degree."""
  out = []
  for l, n in enumerate(counts):
    a = np.empty((2 * l + 1, n), dtype=object)
    for k, m in enumerate(rep.orders(l)):
      for f in range(n):
        a[k, f] = poly.var('in', ('h', l, m, f), deps=frozenset([('h', l)]), name=f'h{l}[m{m},{f}]')
    out.append(A.Arr(A._obj(a), A.F32, False, True))
  return out


def multiplicities(degrees, top):
  c = {}
  for la, lb in itertools.product(degrees, repeat=2):
    for l in range(abs(la - lb), min(la + lb, top) + 1):
      c[l] = c.get(l, 0) + 1
  return c


def expand(e):
  """Term as a dictionary (cg atom key or None) -> remaining terms."""
  e = poly.lift(e)
  out = {}
  for mon, c in e.items():
    if c == 0:
      continue
    cg, rest = None, []
    for i in mon:
      a = poly._ATOMS[i]
      if a.kind == 'cg':
        if cg is not None:
          raise Unsupported('product of coupling coefficients')
        cg = a.slots, a.key[1]
      else:
        rest.append(a)
    out.setdefault(cg, []).append((c, tuple(rest)))
  return out


def coupling(table, la, ma, lb, mb, l, m):
  """Identity of a coupling coefficient (None for the trivial one)."""
  c = table[la * la + la + ma, lb * lb + lb + mb, l * l + l + m]
  if not isinstance(c, poly.Poly):
    return None
  (mon, _), = c.d.items()
  a = poly._ATOMS[mon[0]]
  return a.slots, a.key[1]


def square(degrees, mult, top, ltop):
  """ltop: largest degree of the given irreps."""
  s = session()
  what = f'make_square_matrix(degrees={list(degrees)}, mult={mult}, max_degree={top}) of irreps up to degree {ltop}'
  d = s.get('e3x.matrix.matmat.make_dict_irreps_mult')(list(degrees), ltop)
  need = multiplicities(degrees, ltop)
  got = {int(k): int(v) for k, v in d.items() if v}
  if got != need:
    return [f'make_dict_irreps_mult({list(degrees)}, {ltop}) is {got} instead of {need}']
  counts = [need.get(l, 0) * mult * mult for l in range(ltop + 1)]
  hs = irreps(counts)
  f = s.get('e3x.matrix.make_square_matrix')
  A.events().contractions.clear()
  M = A.asarr(f(list(hs), list(degrees), mult, top, False, 'high'))
  prec = [(w, p, loc) for w, loc, p, tr in A.events().contractions if tr]
  S = A.asarr(f(list(hs), list(degrees), mult, top, True, 'high'))
  out = []
  for w, p, loc in prec:
    if p != 'high':
      return [run.Finding('blocks', what, f'{what}: contraction {w} uses precision={p} instead of the given precision', str(loc))]
  side = sum(2 * l + 1 for l in degrees) * mult
  for X, n in ((M, 'matrix'), (S, 'shifted matrix')):
    if tuple(X.shape) != (side, side):
      return [f'{what}: {n} of shape {tuple(X.shape)} instead of {(side, side)}']
  it = poly.Interp(4)
  for i, j in itertools.product(range(side), repeat=2):
    if it.equiv(S.a[i, j], M.a[i, j] + (1.0 if i == j else 0.0)) is False:
      return [f'{what}: with shift_by_id element {[i, j]} is not that of the matrix plus the identity']
  used = {}
  table = rep.cg_table(max(*degrees, ltop)).a
  oa = 0
  n = 0
  for sa, la in enumerate(degrees):
    ob = 0
    for sb, lb in enumerate(degrees):
      for i, j in itertools.product(range(mult), repeat=2):
        where = f'{what}: block of row shell {sa} (degree {la}, copy {i}) and column shell {sb} (degree {lb}, copy {j})'
        h = {}
        for (ka, ma), (kb, mb) in itertools.product(enumerate(rep.orders(la)), enumerate(rep.orders(lb))):
          e = M.a[oa + i * (2 * la + 1) + ka, ob + j * (2 * lb + 1) + kb]
          n += 1
          terms = expand(e)
          ls = range(abs(la - lb), min(la + lb, ltop) + 1)
          want = [(l, m) for l in ls for m in rep.orders(l)]
          names = {coupling(table, la, ma, lb, mb, *x): x for x in want}
          seen = set()
          for cg, rest in terms.items():
            l, m = names.get(cg, (None, None))
            if l is None:
              return [f'{where}: entry for orders ({ma}, {mb}) contains {"the coupling coefficient " + str(cg[1]) + " of orders " + str(cg[0]) if cg else "a term without coupling coefficient"}']
            for c, r in rest:
              for a in r:
                if a.kind != 'in' or a.key[1][1] != l or a.key[1][2] != m:
                  return [f'{where}: coupling to degree {l} order {m} multiplies {a.name}']
            sig = tuple(sorted((c, tuple(a.key[1][3] for a in r)) for c, r in rest))
            if h.setdefault(l, sig) != sig:
              return [f'{where}: entries use different degree-{l} features']
            seen.add((l, m))
          miss = [x for x in want if x not in seen]
          if miss:
            return [f'{where}: entry for orders ({ma}, {mb}) has no contribution of degree {miss[0][0]} order {miss[0][1]}']
        for l, sig in h.items():
          for c, fs in sig:
            for q in fs:
              if (l, q) in used:
                return [f'{where}: uses degree-{l} feature {q}, which already belongs to {used[l, q]}']
              used[l, q] = f'row shell {sa} copy {i}, column shell {sb} copy {j}'
      ob += mult * (2 * lb + 1)
    oa += mult * (2 * la + 1)
  for l, c in enumerate(counts):
    for q in range(c):
      if (l, q) not in used:
        out.append(f'{what}: degree-{l} feature {q} is not used')
        return out
  return dict(problems=out, facts=n)


def traces(degrees, mult, shift):
  s = session()
  side = sum(2 * l + 1 for l in degrees) * mult
  a = np.empty((side, side), dtype=object)
  for i, j in np.ndindex(side, side):
    a[i, j] = poly.var('in', ('M', i, j), deps=frozenset(['M']), name=f'M[{i},{j}]')
  T = A.asarr(s.get('e3x.matrix.matmat.get_traces')(A.Arr(A._obj(a), A.F32, False, True), list(degrees), mult, shift))
  want = []
  o = 0
  for l in degrees:
    w = 2 * l + 1
    for i, j in itertools.product(range(mult), repeat=2):
      t = 0
      for k in range(w):
        t = a[o + i * w + k, o + j * w + k] + t
      want.append(t - w if shift and i == j else t)
    o += mult * w
  w = np.empty(len(want), dtype=object)
  w[:] = want
  what = f'get_traces(degrees={list(degrees)}, mult={mult}, shift_by_id={shift})'
  return dict(problems=rep.compare(T, w, what), facts=len(want))


def combine(lead, L, counts, F):
  s = session()
  x = rep.features('x', lead, 1, L, F)
  x = A.Arr(x.a[..., 0, :, :], A.F32, False, True)
  ws = []
  for l, c in enumerate(counts):
    a = np.empty((F, c), dtype=object)
    for i, o in np.ndindex(F, c):
      a[i, o] = poly.var('par', ('w', l, i, o), deps=frozenset([('w', l)]), name=f'w{l}[{i},{o}]')
    ws.append(A.Arr(A._obj(a), A.F32, False, True))
  A.events().contractions.clear()
  r = s.get('e3x.matrix.matmat.combine_irreps')(x, ws, 'high')
  prec = [(w, p) for w, loc, p, tr in A.events().contractions if tr]
  what = f'combine_irreps(features up to degree {L} with leading axes {lead}, {F} shells, weights for {list(counts)} outputs)'
  for w, p in prec:
    if p != 'high':
      return [f'{what}: contraction {w} uses precision={p} instead of the given precision']
  if len(r) != len(counts):
    return [f'{what}: {len(r)} results instead of {len(counts)}']
  n = 0
  for l, c in enumerate(counts):
    want = np.empty((*lead, 2 * l + 1, c), dtype=object)
    for ix in np.ndindex(*want.shape):
      t = 0
      for i in range(F):
        t = x.a[(*ix[:-2], l * l + ix[-2], i)] * ws[l].a[i, ix[-1]] + t
      want[ix] = t
    n += want.size
    p = rep.compare(A.asarr(r[l]), want, f'{what}: degree {l}')
    if p:
      return p
  return dict(problems=[], facts=n)


def weights(shells, degrees, mult, std, top):
  s = session()
  need = multiplicities(degrees, top)
  d = s.get('e3x.matrix.matmat.make_dict_irreps_mult')(list(degrees), top)
  key = s.get('jax.random.PRNGKey')(0)
  A.events().rng.clear()
  ws = s.get('e3x.matrix.init_matrix_irreps_weights')(key, shells, d, mult, std)
  what = f'init_matrix_irreps_weights(n_shells={shells}, degrees {list(degrees)}, mult={mult}, stddev={std})'
  if len(ws) != max(need) + 1:
    return [f'{what}: {len(ws)} arrays instead of {max(need) + 1}']
  used = {}
  n = 0
  for l, w in enumerate(ws):
    w = A.asarr(w)
    shape = (shells, need.get(l, 0) * mult * mult)
    if tuple(w.shape) != shape:
      return [f'{what}: weights of degree {l} have shape {tuple(w.shape)} instead of {shape}']
    for ix in np.ndindex(*shape):
      e = poly.lift(w.a[ix])
      n += 1
      if len(e) != 1:
        raise Unsupported(f'{what}: weight is not a multiple of one draw')
      (mon, c), = e.items()
      if len(mon) != 1 or poly._ATOMS[mon[0]].kind != 'rng':
        return [f'{what}: weight {list(ix)} of degree {l} is not a random draw']
      a = poly._ATOMS[mon[0]]
      if a.key[1][0] != 'normal':
        raise Unsupported(f'{what}: draw from {a.key[1][0]}')
      if abs(c - std / math.sqrt(2 * l + 1)) > 1e-6 * std:
        return [f'{what}: weights of degree {l} have standard deviation {c} instead of {std / math.sqrt(2 * l + 1)}']
      if used.setdefault(mon[0], (l, ix)) != (l, ix):
        return [f'{what}: weight {list(ix)} of degree {l} repeats the draw of {used[mon[0]]}']
  idents = {}
  for l, w in enumerate(ws):
    for ix in np.ndindex(*A.asarr(w).shape):
      (mon, c), = poly.lift(A.asarr(w).a[ix]).items()
      i = poly._ATOMS[mon[0]].key[1][1]
      if idents.setdefault(i, l) != l:
        return [f'{what}: degrees {idents[i]} and {l} draw from the same key']
  return dict(problems=[], facts=n)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  sets = [(0,), (1,), (2,), (0, 1), (1, 0), (0, 2), (1, 1), (2, 1), (0, 0, 1), (1, 2), (0, 1, 2), (2, 0)]
  if th:
    sets += [(3,), (1, 3), (0, 1, 1, 2), (2, 3), (3, 0), (2, 2)]
  for d in sets:
    for mult in (1, 2, 3) if sum(d) <= 2 or th else (1, 2):
      hi = 2 * max(d)
      for top in sorted({max(d), max(d) + 1, hi, hi + 1}):
        for lt in sorted({min(top, hi), max(0, min(top, hi) - 1), 0}):
          if mult > 1 and lt != min(top, hi) and not th:
            continue
          obs.append(Ob(f'square {d} mult={mult} max_degree={top} irreps<={lt}', square, (d, mult, top, lt), 'blocks', cost=(sum(2 * l + 1 for l in d) * mult) ** 2))
    for mult in (1, 2, 3):
      for sh in (False, True):
        obs.append(Ob(f'traces {d} mult={mult} {sh}', traces, (d, mult, sh), 'traces'))
    for i, (sh, mult, std) in enumerate(itertools.product((1, 3), (1, 2), (1.0, 0.05))):
      obs.append(Ob(f'weights {d} {sh} {mult} {std}', weights, (sh, d, mult, std, 2 * max(d) if i % 2 else max(d)), 'weights'))
  for lead in ((), (2,), (2, 3)):
    for L, counts in [(0, (2,)), (1, (2, 3)), (2, (1, 2, 3)), (2, (3, 1)), (3, (2,)), (3, (1, 1, 2, 1))]:
      for F in (1, 3):
        obs.append(Ob(f'combine {lead} L={L} {counts} F={F}', combine, (lead, L, counts, F), 'combine'))
  return obs
