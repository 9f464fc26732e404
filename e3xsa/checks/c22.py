"""C22: quadrature requests get a rule of sufficient precision.

The loaders are interpreted over a modelled package in which every grid is replaced by
labelled points and weights; the lists of available precisions and sizes are those of the
shipped files (and small synthetic ones).  Rule 'selection': every requested precision and
number of points, including all values at, just below and just above each boundary and far
outside, returns the points and weights of exactly the demanded rule of the requested
family.  Rule 'warning': a precision that is not available is announced.  Rule 'arguments':
exactly one of the two arguments is accepted.  Rule 'loading': grid data that cannot be
read is reported as RuntimeError.  Rule 'metadata': the shipped lists are ascending and
agree with the shapes of the stored grids.
"""

import errno
import os
import zipfile
import zlib

import numpy as np

from .. import arr as A
from .. import interp as I
from .. import poly
from .. import rep
from .. import run
from ..errors import AnchorMissing, EngineError
from ..run import Obligation as Ob
from .c14 import LOAD, OPEN, mk

FAMILY = {'lebedev': 'Lebedev', 'delley': 'Delley'}


def shipped(fam):
  p = os.path.join(I.REPO, 'e3x', 'so3', f'_{fam}_grids.npz')
  if not os.path.exists(p):
    raise AnchorMissing(f'{p} is missing')
  with np.load(p) as z:
    prec = [int(v) for v in z['precision']]
    num = [int(v) for v in z['num']]
    shapes = [(z[f'r{i}'].shape, z[f'w{i}'].shape) for i in range(len(num))]
  return prec, num, shapes


def ints(v):
  a = np.empty(len(v), dtype=object)
  for i, x in enumerate(v):
    a[i] = int(x)
  return A.Arr(a, A.I64, False, False, True)


def content(fam, prec, num):
  c = dict(precision=ints(prec), num=ints(num))
  for i, n in enumerate(num):
    for k, sh in (('r', (n, 3)), ('w', (n,))):
      c[f'{k}{i}'] = A.Arr(A._full(sh, poly.var('grid', (fam, k, i), name=f'{fam} {k}{i}')), A.F64, False, False, True)
  return c


def session(tables):
  s = rep.Session(fold=False, opaque_cg=False)
  run.WORLDS.append(s.w)
  for fam, (prec, num) in tables.items():
    s.w.fs.package[f'_{fam}_grids.npz'] = content(fam, prec, num)
  return s


def label(v):
  if isinstance(v, poly.Poly):
    at = v.atoms()
    if len(v.d) == 1 and len(at) == 1 and next(iter(v.d.values())) == 1 and at[0].kind == 'grid':
      return at[0].key[1]
  return None


def which(a, fam, kind, num):
  """Index of the rule stored in `a`, or a message."""
  a = A.asarr(a)
  ls = {label(v) for v in a.a.ravel()}
  if len(ls) != 1 or None in ls:
    return f'{kind} are not those of one stored rule'
  f, k, i = ls.pop()
  if f != fam:
    return f'{kind} of the {FAMILY[f]} family'
  if k != kind[0]:
    return f'{"weights" if k == "w" else "points"} are returned as {kind}'
  sh = (num[i], 3) if k == 'r' else (num[i],)
  if tuple(a.shape) != sh:
    return f'{kind} have shape {tuple(a.shape)} instead of {sh}'
  return i


def select(fam, prec, num, tables, reqs):
  s = session(tables)
  f = s.get(f'e3x.so3.{fam}_quadrature')
  out = []
  for how, v in reqs:
    A.events().warn.clear()
    what = f'{fam}_quadrature({how}={v})'
    r = f(**{how: v})
    if how == 'precision':
      ok = [i for i in range(len(prec)) if prec[i] >= v]
      want = min(ok, key=lambda i: (num[i], prec[i])) if ok else max(range(len(prec)), key=lambda i: prec[i])
      if not ok and not A.events().warn:
        out.append(run.Finding('warning', fam, f'{what}: precision {v} is not available but no warning is given', None))
      if ok and A.events().warn:
        out.append(run.Finding('warning', fam, f'{what}: precision {v} is available but a warning is given', str(A.events().warn[0][-1])))
    else:
      ok = [i for i in range(len(num)) if num[i] <= v]
      if ok and A.events().warn:
        out.append(run.Finding('warning', fam, f'{what}: a rule with at most {v} points is available but a warning is given', str(A.events().warn[0][-1])))
      want = max(ok, key=lambda i: num[i]) if ok else min(range(len(num)), key=lambda i: num[i])
    if not isinstance(r, (tuple, list)) or len(r) != 2:
      out.append(f'{what}: returns {type(r).__name__} instead of points and weights')
      continue
    for kind, x in (('r (points)', r[0]), ('w (weights)', r[1])):
      g = which(x, fam, kind, num)
      if isinstance(g, str):
        out.append(f'{what}: {g}')
      elif g != want:
        out.append(f'{what}: {kind} of the rule with precision {prec[g]} and {num[g]} points instead of {prec[want]} and {num[want]}')
    if len(out) > 3:
      break
  return dict(problems=out, facts=2 * len(reqs))


def metadata(fam):
  prec, num, shapes = shipped(fam)
  out = []
  for n, v in (('precision', prec), ('num', num)):
    if any(b <= a for a, b in zip(v, v[1:])):
      out.append(f'{fam}: the list {n} of the shipped grids is not ascending')
  if len(prec) != len(num):
    out.append(f'{fam}: {len(prec)} precisions but {len(num)} sizes')
  for i, (r, w) in enumerate(shapes):
    if r != (num[i], 3) or w != (num[i],):
      out.append(f'{fam}: rule {i} has points {r} and weights {w} but is listed with {num[i]} points')
  return dict(problems=out, facts=len(shapes))


def arguments(fam, tables):
  s = session(tables)
  f = s.get(f'e3x.so3.{fam}_quadrature')
  n = 0
  bad = [{}, dict(precision=None, num=None)] + [dict(precision=p, num=q) for p in (0, 1, -1, 7, 500) for q in (0, 1, -1, 14, 9999)]
  for kw in bad:
    n += 1
    try:
      f(**kw)
    except EngineError:
      raise
    except ValueError:
      continue
    except Exception as e:
      return [f'{fam}_quadrature({kw}) raises {type(e).__name__} instead of ValueError: {str(e)[:100]}']
    return [f'{fam}_quadrature({kw}) is accepted']
  for kw in [dict(precision=p) for p in (0, 3, -1)] + [dict(num=q) for q in (0, -1, 100)] + [dict(precision=5, num=None), dict(precision=None, num=50)]:
    n += 1
    f(**kw)
  return dict(problems=[], facts=n)


def loading(fam, tables):
  n = 0
  res = f'_{fam}_grids.npz'
  from .. import lib
  for where, names in (('load', LOAD), ('open', OPEN), ('entry', LOAD), ('missing', {'': None}), ('gone', {'': None})):
    for name, e in names.items():
      if where == 'load' and name == 'a plain array':
        continue
      keys = ['precision', 'r', 'w'] if where in ('entry', 'missing') else [None]
      for kw in (dict(precision=3), dict(num=60)):
        for key in keys:
          n += 1
          s = session(tables)
          c = dict(s.w.fs.package[res])
          if where == 'load':
            s.w.fs.package[res] = lib.Corrupt(mk(e))
          elif where == 'open':
            s.w.fs.package[res] = mk(e)
          elif where == 'gone':
            del s.w.fs.package[res]
          else:
            for k in list(c):
              if k == key or key in ('r', 'w') and k[0] == key or key == 'precision' and k == 'num':
                if where == 'missing':
                  del c[k]
                else:
                  c[k] = mk(e)
            s.w.fs.package[res] = c
          what = f'{fam}_quadrature({kw}) with {where} {name} {key or ""}'
          try:
            s.get(f'e3x.so3.{fam}_quadrature')(**kw)
          except EngineError:
            raise
          except Exception as x:
            # an error that numpy itself reports as a plain RuntimeError needs no translation
            if type(x) is RuntimeError:
              continue
            return [run.Finding('loading', f'{fam} {where}', f'{what}: {type(x).__name__} reaches the caller: {str(x)[:100]}', str(poly.LOC[0]))]
          return [run.Finding('loading', f'{fam} {where}', f'{what}: returns a grid', None)]
  return dict(problems=[], facts=n)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  ship = {fam: shipped(fam)[:2] for fam in FAMILY}
  small = [{'lebedev': ([3], [6]), 'delley': ([5], [14])},
           {'lebedev': ([3, 5], [6, 14]), 'delley': ([5, 7, 11], [14, 26, 50])},
           {'lebedev': ([2, 3, 4, 9], [4, 5, 6, 12]), 'delley': ([1, 8], [1, 30])}]
  for fam in FAMILY:
    for n, tables in enumerate([ship] + small):
      prec, num = tables[fam]
      reqs = [('precision', v) for v in range(-4, max(prec) + 12)]
      reqs += [('precision', v) for v in (-1000, 500, 10 ** 6)]
      if th:
        ns = set(range(-4, max(num) + 30))
      else:
        ns = set(range(-3, 60)) | {x + d for x in num for d in (-2, -1, 0, 1, 2)} | {(a + b) // 2 for a, b in zip(num, num[1:])}
      reqs += [('num', v) for v in sorted(ns | {-1000, 10 ** 6})]
      step = 60
      for i in range(0, len(reqs), step):
        obs.append(Ob(f'{fam} table {n} requests {reqs[i][0]}={reqs[i][1]}...', select, (fam, prec, num, tables, reqs[i:i + step]), 'selection', cost=4))
    obs.append(Ob(f'{fam} metadata', metadata, (fam,), 'metadata'))
    obs.append(Ob(f'{fam} arguments', arguments, (fam, ship), 'arguments', cost=3))
    obs.append(Ob(f'{fam} loading', loading, (fam, small[1]), 'loading', cost=8))
  return obs
