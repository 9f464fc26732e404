"""C13: coupling and rotation tables do not depend on the cache history.

The table generators are interpreted over uninterpreted coefficients (a table entry names
the coefficient it holds) and a modelled file system.  Rule 'history': for every sequence
of requests (any degrees, one or several processes), with no cache, a user cache, a cache
path that changes, caches deleted or overwritten by another process with smaller or larger
tables, and a shipped table of any size or none, each returned table equals, entry for
entry, the table a fresh run without caches returns.  Rule 'position': in that reference
each entry stands where its labels say (order of rows, columns and degrees), nothing is
missing, and the table has exactly the requested size.
"""

import itertools

import numpy as np

from .. import arr as A
from .. import elem
from .. import poly
from .. import rep
from .. import run
from .. import tables as T
from ..errors import EngineError, Unsupported
from ..run import Obligation as Ob


def reference(kind, L, procs=1):
  t = T.Tables(kind)
  r = t.request(L, procs)
  return r


def label(v):
  """The label of a pure coefficient, 0 for zero, else None."""
  if not elem.is_abs(v):
    return 0 if v == 0 else None
  at = v.atoms()
  if len(v.d) == 1 and len(at) == 1 and next(iter(v.d.values())) == 1 and at[0].kind == 'coef':
    return at[0].key[1]
  return None


def positions(kind, L):
  r = reference(kind, L)
  facts = 0
  if int(r['max_degree']) != L:
    return [f'max_degree is {r["max_degree"]}']
  if kind == 'clebsch_gordan':
    a = A.asarr(r['cg'], np_=True)
    n = (L + 1) ** 2
    if a.shape != (n, n, n):
      return [f'{kind} degree {L}: table of shape {a.shape}']
    lm = [(l, m) for l in range(L + 1) for m in range(-l, l + 1)]
    for i, j, k in itertools.product(range(n), repeat=3):
      (l1, m1), (l2, m2), (l3, m3) = lm[i], lm[j], lm[k]
      facts += 1
      g = label(a.a[i, j, k])
      ok = abs(l1 - l2) <= l3 <= l1 + l2 and m3 in (m1 + m2, m1 - m2, m2 - m1, -m1 - m2)
      if ok and g != ('cg', l1, m1, l2, m2, l3, m3):
        return [f'{kind} degree {L}: entry of (l1,m1)={l1, m1} (l2,m2)={l2, m2} (l3,m3)={l3, m3} holds {a.a[i, j, k]}']
      if not ok and g != 0 and g != ('cg', l1, m1, l2, m2, l3, m3):
        return [f'{kind} degree {L}: entry of (l1,m1)={l1, m1} (l2,m2)={l2, m2} (l3,m3)={l3, m3} holds {a.a[i, j, k]}']
    return dict(problems=[], facts=facts)
  if kind in ('spherical_harmonics', 'wigner_d'):
    nv = 3 if kind == 'spherical_harmonics' else 9
    cm, ls = A.asarr(r['cm'], np_=True), A.asarr(r['ls'], np_=True)
    rows = [tuple(int(v) for v in ls.a[i]) for i in range(ls.shape[0])]
    want = [p for l in range(L + 1) for p in rep.monomials(nv, l)]
    if sorted(rows) != sorted(want):
      return [f'{kind} degree {L}: the monomials {rows[:5]}... are not those of degrees up to {L}']
    if [sum(p) for p in rows] != sorted(sum(p) for p in rows):
      return [f'{kind} degree {L}: monomials are not grouped by degree']
    if kind == 'spherical_harmonics':
      cols = [(l, m) for l in range(L + 1) for m in range(-l, l + 1)]
    else:
      cols = [(l, i, j) for l in range(L + 1) for i in range(-l, l + 1) for j in range(-l, l + 1)]
    if cm.shape != (len(rows), len(cols)):
      return [f'{kind} degree {L}: table of shape {cm.shape}']
    swap = None
    for i, p in enumerate(rows):
      for j, c in enumerate(cols):
        facts += 1
        g = label(cm.a[i, j])
        if sum(p) != c[0]:
          if g != 0:
            return [f'{kind} degree {L}: monomial {p} contributes {cm.a[i, j]} to column {c}']
          continue
        if kind == 'spherical_harmonics':
          if g != ('sh', *c, p):
            return [f'{kind} degree {L}: coefficient of monomial {p} in column {c} is {cm.a[i, j]}']
        else:
          # rows and columns of the matrix: one fixed orientation for the whole table
          opts = {('wd', c[0], c[2], c[1], p): True, ('wd', c[0], c[1], c[2], p): False}
          if g not in opts:
            return [f'{kind} degree {L}: coefficient of monomial {p} in entry {c} is {cm.a[i, j]}']
          if c[1] != c[2]:
            if swap is None:
              swap = opts[g]
            elif swap != opts[g]:
              return [f'{kind} degree {L}: entry {c} is transposed relative to the other entries']
    return dict(problems=[], facts=facts)
  for tag, dims in (('s2t', lambda l: (2 * l + 1, (l + 1) * (l + 2) // 2)), ('t2s', lambda l: ((l + 1) * (l + 2) // 2, 2 * l + 1))):
    v = r[tag]
    if len(v) != L + 1:
      return [f'{kind} degree {L}: {len(v)} matrices in {tag}']
    for l, m in enumerate(v):
      m = A.asarr(m, np_=True)
      if m.shape != dims(l):
        return [f'{kind} degree {L}: {tag}[{l}] has shape {m.shape}']
      for ix in np.ndindex(*m.shape):
        facts += 1
        if label(m.a[ix]) != (tag, l, ix):
          return [f'{kind} degree {L}: {tag}[{l}]{list(ix)} holds {m.a[ix]}']
  return dict(problems=[], facts=facts)


EMPTY = 'empty'


def package_content(kind, p):
  if p is None:
    return None
  if p == EMPTY:
    return {'max_degree': A.asarr(-1, np_=True)}
  return T.contents(kind, p)


PATHS = {'A': '/cache/a.npz', 'B': '/other/b.npz', '-': None}


def history(kind, package, script, top):
  """Runs a script of events; every request must equal the reference."""
  # content first: each Tables resets the value numbers
  want_keys = sorted({e[1] for e in script if e[0] in ('get', 'get2')})
  t = T.Tables(kind)
  refs = {}
  for L in want_keys:
    refs[L] = t.request(L)
  files = {}

  def content(d):
    if d not in files:
      if d == EMPTY:
        files[d] = {'max_degree': A.asarr(-1, np_=True)}
      else:
        shipped, t.fs.package = t.fs.package, {}
        t.cache('/ref/table.npz')
        t.request(d)
        if '/ref/table.npz' not in t.fs.files:
          raise Unsupported('no cache file is written')
        files[d] = t.fs.files.pop('/ref/table.npz')
        t.cache(None)
        t.fs.package = shipped
    return files[d]
  if package is not None:
    c = content(package)
    t.fs.package[t.resource] = c
  for e in script:
    if e[0] == 'put':
      content(e[2])
  facts = 0
  done = []
  try:
    for e in script:
      done.append(e)
      if e[0] == 'path':
        t.cache(PATHS[e[1]])
      elif e[0] == 'put':
        t.fs.files[PATHS[e[1]]] = content(e[2])
      elif e[0] == 'del':
        t.fs.files.pop(PATHS[e[1]], None)
      else:
        r = t.request(e[1], 2 if e[0] == 'get2' else 1)
        facts += T.size(r)
        d = T.difference(kind, r, refs[e[1]], e[1])
        if d:
          return [run.Finding('history', f'{kind}', f'{kind}: after {done[:-1]} with shipped table {package}, the table for degree {e[1]} differs from the one without caches: {d}')]
  except EngineError:
    raise
  except Exception as x:
    if isinstance(x, (IndexError, KeyError, ValueError, TypeError, ZeroDivisionError, OSError, EOFError)):
      return [run.Finding('history', f'{kind}', f'{kind}: after {done[:-1]} with shipped table {package}, the request {done[-1]} fails: {type(x).__name__}: {str(x)[:150]}', str(poly.LOC[0]))]
    raise
  return dict(problems=[], facts=facts)


def histories(kind, package, scripts, top):
  facts = 0
  for s in scripts:
    r = history(kind, package, s, top)
    if isinstance(r, list):
      return r
    facts += r['facts']
  return dict(problems=[], facts=facts)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  for kind in T.KINDS:
    top = {'clebsch_gordan': 3, 'spherical_harmonics': 4, 'wigner_d': 2, 'tensor_conversion': 4}[kind] + (1 if th else 0)
    mined = [m for m in run.mined_ints(2, 9, files=(T.KINDS[kind] + '.py', '_lookup_table_generation_utility.py', '_common.py')) if m <= {'clebsch_gordan': 5, 'spherical_harmonics': 8, 'wigner_d': 3, 'tensor_conversion': 8}[kind]]
    for L in sorted(set(range(top + 1)) | set(mined)):
      obs.append(Ob(f'{kind} positions degree={L}', positions, (kind, L), 'position', cost=4 ** L))
    D = [0, 1, 2] if kind in ('wigner_d', 'clebsch_gordan') and not th else [0, 1, 2, 3]
    big = sorted({m for m in mined if m > max(D)} | ({3} if kind == 'clebsch_gordan' and max(D) == 2 else set()))[:2]
    for package in (None, EMPTY, *D):
      groups = {}

      def add(g, *ev):
        groups.setdefault(g, []).append(tuple(ev))
      for a, b in itertools.product(D, D):
        add('no cache', ('get', a), ('get', b), ('get2', a))
        add('user cache', ('path', 'A'), ('get', a), ('get', b), ('get', a))
        add('changing path', ('path', 'A'), ('get', a), ('path', 'B'), ('get', b), ('path', 'A'), ('get2', b), ('path', '-'), ('get', a))
        add('other process', ('path', 'A'), ('put', 'A', a), ('get', b), ('put', 'A', a), ('get2', b))
        add('deleted', ('path', 'A'), ('get', a), ('del', 'A'), ('get', b))
        add('many processes', ('path', 'A'), ('get2', a), ('get2', b), ('get', max(a, b)))
      for a in D:
        add('empty user cache', ('path', 'A'), ('put', 'A', EMPTY), ('get', a), ('get', a))
      if th or kind != 'wigner_d':
        for a, b, c in itertools.product(D, repeat=3):
          if len({a, b, c}) == 3 or th:
            add('three', ('path', 'A'), ('get', a), ('get', b), ('get', c), ('get2', b))
      for b in big:
        add('threshold', ('path', 'A'), ('get', 1), ('get', b), ('get2', b - 1), ('get', 0))
        add('threshold other', ('path', 'A'), ('put', 'A', b), ('get', b - 1), ('get', 1))
      for g, sc in groups.items():
        for i in range(0, len(sc), 4):
          obs.append(Ob(f'{kind} shipped={package} {g} #{i // 4}', histories, (kind, package, sc[i:i + 4], top), 'history', cost=20))
  return obs
