"""C23: rotation constructors always return proper rotations.

Every constructor is interpreted on symbolic axes, angles, vectors and random draws, which
yields the matrix as closed terms of its inputs.  The demanded identities (orthogonality,
determinant, fixed axis, sense of rotation, product of elementary rotations, u R ~ v with
the shortest arc, round trip of Euler angles, moments of the uniform distribution) are
decided by interpreting the extracted terms: analytic terms that agree at generic points
agree everywhere, and the degenerate strata (parallel, antiparallel, coordinate axes,
gimbal lock, boundary values of the random draw) are interpreted separately.  A second rule
evaluates the terms in outward-rounded single precision intervals at the antiparallel
directions and demands bounded entries.
"""

import itertools
import math
import random

import numpy as np

from .. import arr as A
from .. import funcs
from .. import ival
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..run import Obligation as Ob

TOL = 1e-6


def session():
  s = rep.Session(fold=False)
  poly.SELECT[0] = True
  run.WORLDS.append(s.w)
  return s


def reals(name, shape):
  a = np.empty(shape, dtype=object)
  for ix in np.ndindex(*shape):
    a[ix] = poly.var('in', (name, ix), deps=frozenset([name]), name=f'{name}{list(ix)}')
  return A.Arr(A._obj(a), A.F32, False, True)


class Point:
  """One interpretation of the inputs: name -> array of values."""

  def __init__(self, label, draw=None, **vals):
    self.label = label
    self.vals = {k: np.asarray(v, dtype=float) for k, v in vals.items()}
    self.draw = draw
    self.memo = {}

  def base(self, a, k):
    key = a.key[1]
    if a.kind == 'in':
      return float(self.vals[key[0]][key[1]])
    if a.kind == 'rng':
      dist, ident, shape, dt, extra, i = key
      if self.draw is None:
        raise Unsupported('random draw in a deterministic constructor')
      lo, hi = 0.0, 1.0
      for n, v in extra:
        if n == 'minval':
          lo = float(v)
        elif n == 'maxval':
          hi = float(v)
      if dist != 'uniform':
        raise Unsupported(f'random draw from {dist}')
      return lo + (hi - lo) * self.draw(ident, shape, i)
    raise Unsupported(f'opaque value {a.name}')

  def value(self, x):
    x = A.asarr(x)
    out = np.empty(x.shape)
    for ix in np.ndindex(*x.shape):
      out[ix] = poly.evaluate(x.a[ix], 0, self.memo, self.base)
    return out


def rot_axis(n, t):
  """Row-vector rotation matrix (r @ R) counterclockwise about n by t."""
  n = np.asarray(n, dtype=float)
  n = n / math.sqrt(n @ n)
  K = np.array([[0, -n[2], n[1]], [n[2], 0, -n[0]], [-n[1], n[0], 0]])
  return (np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K @ K).T


def diff(got, want, what, tol=TOL):
  got, want = np.asarray(got), np.asarray(want)
  if got.shape != want.shape:
    return [f'{what}: shape {got.shape} instead of {want.shape}']
  bad = ~(np.abs(got - want) <= tol * np.maximum(1.0, np.abs(want)))
  if bad.any():
    ix = tuple(np.argwhere(bad)[0])
    return [f'{what}: element {list(map(int, ix))} is {got[ix]:.9g} but must be {want[ix]:.9g}']
  return []


def proper(R, what):
  """R: (..., 3, 3) values."""
  for b in np.ndindex(*R.shape[:-2]):
    M = R[b]
    p = diff(M @ M.T, np.eye(3), f'{what}: product with its transpose')
    if p:
      return p
    d = np.linalg.det(M)
    if not abs(d - 1) <= TOL:
      return [f'{what}: determinant {d:.9g} instead of 1']
  return []


DIRS = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1), (1, 1, 0), (1, 0, -1), (0, 1, 1), (1, 1, 1),
        (-1, 1, 1), (1, -1, -1), (2, -1, 0.5), (0.3, 0.2, -0.9), (-0.01, 0.02, 1.0), (5, 300, -40), (1e-3, 2e-3, -1e-3)]


def directions(shape, rnd, k):
  a = np.empty((*shape, 3))
  for j, b in enumerate(np.ndindex(*shape)):
    i = k * 7 + j
    a[b] = DIRS[i % len(DIRS)] if (i % 3) or k < len(DIRS) else [rnd.gauss(0, 1) for _ in range(3)]
  return a


ANGLES = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, 0.7, -1.3, 2.9, 5.0, -7.0, 1e-4, 20.0]


def axis_angle(la, lb, n, kind):
  """kind: how the angle is given ('array' or 'number')."""
  s = session()
  f = s.get('e3x.so3.rotation')
  out, facts = [], 0
  rnd = random.Random(f'{la}{lb}')
  if kind == 'number':
    for t in ANGLES:
      R = A.asarr(f(reals('n', (*la, 3)), t))
      for k in range(3):
        p = Point('', n=directions(la, rnd, k + int(10 * abs(t))))
        out += check_axis(p.value(R), p.vals['n'], np.full(la, t), f'rotation(axis, {t:.6g}) with axis {p.vals["n"].tolist()}')
        facts += 1
        if out:
          return dict(problems=out, facts=facts)
    return dict(problems=out, facts=facts)
  R = A.asarr(f(reals('n', (*la, 3)), reals('t', lb)))
  for k in range(n):
    ts = np.array([ANGLES[(k + j) % len(ANGLES)] for j in range(int(np.prod(lb)))]).reshape(lb)
    p = Point('', n=directions(la, rnd, k), t=ts)
    out += check_axis(p.value(R), p.vals['n'], ts, f'rotation(axis, angle) with axis {p.vals["n"].tolist()} and angle {ts.tolist()}')
    facts += 1
    if out:
      break
  return dict(problems=out, facts=facts)


def check_axis(R, n, t, what):
  lead = np.broadcast_shapes(n.shape[:-1], t.shape)
  if R.shape != (*lead, 3, 3):
    return [f'{what}: shape {R.shape} instead of {(*lead, 3, 3)}']
  n = np.broadcast_to(n, (*lead, 3))
  t = np.broadcast_to(t, lead)
  want = np.empty((*lead, 3, 3))
  for b in np.ndindex(*lead):
    want[b] = rot_axis(n[b], t[b])
  return proper(R, what) or diff(R, want, what)


def euler(shapes, n):
  s = session()
  f = s.get('e3x.so3.rotation_euler')
  R = A.asarr(f(*[reals(x, sh) for x, sh in zip('abc', shapes)]))
  lead = np.broadcast_shapes(*shapes)
  out = []
  for k in range(n):
    v = {}
    for q, (x, sh) in enumerate(zip('abc', shapes)):
      v[x] = np.array([ANGLES[(k * (q + 1) + j + 3 * q) % len(ANGLES)] for j in range(int(np.prod(sh)))]).reshape(sh)
    p = Point('', **v)
    M = p.value(R)
    what = f'rotation_euler(a={v["a"].tolist()}, b={v["b"].tolist()}, c={v["c"].tolist()})'
    if M.shape != (*lead, 3, 3):
      return [f'{what}: shape {M.shape} instead of {(*lead, 3, 3)}']
    a, b, c = (np.broadcast_to(v[x], lead) for x in 'abc')
    want = np.empty((*lead, 3, 3))
    for i in np.ndindex(*lead):
      want[i] = rot_axis((1, 0, 0), a[i]) @ rot_axis((0, 1, 0), b[i]) @ rot_axis((0, 0, 1), c[i])
    out += proper(M, what) or diff(M, want, what)
    if out:
      break
  return dict(problems=out, facts=n)


def generic(i, rnd):
  if i < len(DIRS):
    return np.array(DIRS[i], dtype=float)
  return np.array([rnd.gauss(0, 1) for _ in range(3)])


def perpendicular(u, rnd):
  while True:
    w = np.cross(u, [rnd.gauss(0, 1) for _ in range(3)])
    if w @ w > 1e-3 * (u @ u):
      return w / math.sqrt(w @ w)


def pairs(relation, rnd, n):
  """Pairs of vectors of one stratum."""
  out = []
  for i in range(n):
    u = generic(i, rnd)
    un = u / math.sqrt(u @ u)
    s = [1.0, 0.25, 7.0, 1e-3][i % 4]
    w = perpendicular(u, rnd)
    if relation == 'generic':
      v = generic((i * 5 + 3) % 29, rnd)
    elif relation == 'parallel':
      v = s * u
    elif relation == 'antiparallel':
      v = -s * u
    elif relation == 'perpendicular':
      v = s * w
    elif relation == 'acute':
      t = [0.3, 1.2, 0.01][i % 3]
      v = s * (math.cos(t) * un + math.sin(t) * w)
    elif relation == 'obtuse':
      t = [2.0, 2.8, 1.6][i % 3]
      v = s * (math.cos(t) * un + math.sin(t) * w)
    elif relation == 'nearly antiparallel':
      t = math.pi - [0.03, 1e-3, 1e-4][i % 3]
      v = s * (math.cos(t) * un + math.sin(t) * w)
    elif relation == 'nearly parallel':
      t = [0.03, 1e-3, 1e-4][i % 3]
      v = s * (math.cos(t) * un + math.sin(t) * w)
    out.append((u, v))
  return out


RELATIONS = ['generic', 'parallel', 'antiparallel', 'perpendicular', 'acute', 'obtuse', 'nearly antiparallel', 'nearly parallel']


def alignment(lu, lv, relation, n):
  s = session()
  f = s.get('e3x.so3.alignment_rotation')
  R = A.asarr(f(reals('u', (*lu, 3)), reals('v', (*lv, 3))))
  lead = np.broadcast_shapes(lu, lv)
  if tuple(R.shape) != (*lead, 3, 3):
    return [f'alignment_rotation of vectors with leading axes {lu} and {lv}: shape {tuple(R.shape)} instead of {(*lead, 3, 3)}']
  rnd = random.Random(f'{lu}{lv}{relation}')
  ps = pairs(relation, rnd, n)
  m = int(np.prod(lead))
  if lu == lv:
    groups = [ps[i:i + m] for i in range(0, len(ps) - m + 1, m)]
  else:
    groups = [[p] for p in ps]
  out = []
  for g in groups:
    if lu == lv:
      u = np.array([x for x, _ in g]).reshape(*lu, 3)
      v = np.array([y for _, y in g]).reshape(*lv, 3)
    else:      # broadcasting: one common pair, other entries generic
      u = np.array([g[0][0] if i == 0 else generic(i + 2, rnd) for i in range(int(np.prod(lu)))]).reshape(*lu, 3)
      v = np.array([g[0][1] if i == 0 else generic(i + 11, rnd) for i in range(int(np.prod(lv)))]).reshape(*lv, 3)
    p = Point('', u=u, v=v)
    M = p.value(R)
    ub, vb = np.broadcast_to(u, (*lead, 3)), np.broadcast_to(v, (*lead, 3))
    what = f'alignment_rotation(u={u.tolist()}, v={v.tolist()}) ({relation})'
    out += proper(M, what)
    for b in np.ndindex(*lead):
      if out:
        break
      x = ub[b] / math.sqrt(ub[b] @ ub[b])
      y = vb[b] / math.sqrt(vb[b] @ vb[b])
      out += diff(x @ M[b], y, what + ': direction of u @ R')
      out += diff(np.trace(M[b]), 1 + 2 * float(x @ y), what + ': trace (cosine of the rotation angle: shortest arc)')
    if out:
      break
  return dict(problems=out, facts=len(groups))


# distances from gimbal lock; the closest ones cannot be told apart in single precision
NEAR = [0.1, 0.04, 1e-2, 5e-3, 3e-3, 1e-3, 1e-4, 1e-5]


def extraction(lead, n, gimbal):
  """rotation_euler(euler_angles_from_rotation(R)) is R."""
  s = session()
  f = s.get('e3x.so3.euler_angles_from_rotation')
  g = s.get('e3x.so3.rotation_euler')
  Rm = reals('R', (*lead, 3, 3))
  abc = f(Rm)
  if not isinstance(abc, tuple) or len(abc) != 3:
    return ['euler_angles_from_rotation does not return three angles']
  for x in abc:
    if tuple(A.asarr(x).shape) != lead:
      return [f'euler_angles_from_rotation: angle of shape {tuple(A.asarr(x).shape)} for matrices with leading axes {lead}']
  rnd = random.Random(f'{lead}{gimbal}')
  out = []
  m = int(np.prod(lead))
  for k in range(n):
    M = np.empty((*lead, 3, 3))
    for j, i in enumerate(np.ndindex(*lead)):
      a, c = rnd.uniform(-3.1, 3.1), rnd.uniform(-3.1, 3.1)
      b = rnd.uniform(-1.5, 1.5)
      if gimbal == 'exact':
        b = [math.pi / 2, -math.pi / 2][(k + j) % 2]
      elif gimbal == 'near':
        b = [1, -1][(k + j) % 2] * (math.pi / 2 - NEAR[k % len(NEAR)])
      if k % 5 == 4:
        a, c = [(0.0, 0.0), (math.pi, 0.0), (0.0, math.pi / 2)][(k // 5 + j) % 3]
      q = rot_axis((1, 0, 0), a) @ rot_axis((0, 1, 0), b) @ rot_axis((0, 0, 1), c)
      if gimbal == 'exact':
        q = np.where(np.abs(q) < 1e-15, 0.0, q)
      M[i] = q
    p = Point('', R=M)
    va = [p.value(x) for x in abc]
    what = f'euler_angles_from_rotation of {M.round(6).tolist()}'
    if not all(np.isfinite(x).all() for x in va):
      return [f'{what}: angles {[x.tolist() for x in va]} are not finite']
    got = np.empty((*lead, 3, 3))
    for i in np.ndindex(*lead):
      got[i] = rot_axis((1, 0, 0), va[0][i]) @ rot_axis((0, 1, 0), va[1][i]) @ rot_axis((0, 0, 1), va[2][i])
    out += diff(got, M, f'{what}: rotation by the returned angles {[np.asarray(x).tolist() for x in va]}',
                2e-3 if gimbal == 'near' and NEAR[k % len(NEAR)] < 1e-2 else 3e-6)
    if out:
      break
  return dict(problems=out, facts=n)


DRAWS = [(0.0, 0.25, 0.1), (0.0, 0.75, 0.3), (0.5, 0.0, 0.0), (0.25, 0.5, 0.5), (0.999999, 0.1, 0.9), (0.0, 0.0, 0.0),
         (0.0, 0.251, 0.1), (0.0, 0.2501, 0.6), (1e-5, 0.25, 0.2), (0.0, 0.7503, 0.3), (1e-7, 0.75, 0.8), (1e-9, 0.25001, 0.4), (3e-4, 0.26, 0.9),
         (1e-3, 0.25, 0.1), (9e-3, 0.25, 0.6), (1e-5, 0.75, 0.7), (0.05, 0.26, 0.3)]


def sampled(num, pert, n):
  """pert: a number, or 'array' for a symbolic scalar."""
  s = session()
  f = s.get('e3x.so3.random_rotation')
  key = s.get('jax.random.PRNGKey')(0)
  kw = {} if num is None else dict(num=num)
  count = num or 1
  shape = (3, 3) if count == 1 else (count, 3, 3)
  if pert is not None:
    kw['perturbation'] = reals('p', ()) if pert == 'array' else pert
  A.events().rng.clear()
  R = A.asarr(f(key, **kw))
  what0 = f'random_rotation(key, perturbation={pert}, num={num})'
  out = []
  if tuple(R.shape) != shape:
    return [f'{what0}: shape {tuple(R.shape)} instead of {shape}']
  full = A.asarr(f(key, perturbation=1.0, num=count))
  rnd = random.Random(f'{num}{pert}')
  for k in range(n):
    u = np.array([DRAWS[(k + j) % len(DRAWS)] if k < len(DRAWS) else [rnd.random() for _ in range(3)] for j in range(count)]).reshape(count * 3)

    def draw(ident, shp, i):
      flat = int(np.ravel_multi_index(i, shp)) if shp else 0
      return float(u[flat % len(u)])
    q = [0.0, 1.0, 0.5, 0.25, 0.9, -2.0, 3.0, 0.01][k % 8] if pert == 'array' else 1.0 if pert is None else pert
    p = Point('', draw=draw, p=np.array(q))
    M = p.value(R).reshape(count, 3, 3)
    F = p.value(full).reshape(count, 3, 3)
    what = f'{what0} for perturbation {q} and draws {u.reshape(count, 3).tolist()}'
    out += proper(M, what)
    e = min(max(q, 0.0), 1.0)
    for j in range(count):
      if out:
        break
      if e == 0.0:
        out += diff(M[j], np.eye(3), what + ': must be the identity')
        continue
      if e == 1.0:
        out += diff(M[j], F[j], what + ': must equal the unperturbed sample')
        continue
      ang = math.acos(min(1.0, max(-1.0, (np.trace(M[j]) - 1) / 2)))
      if ang > e * math.pi + 1e-5:
        out.append(f'{what}: turns by {ang:.6g}, more than the fraction {e} of a half turn')
    if out:
      break
  return dict(problems=out, facts=n)


def moments():
  """Moments of the distribution for independent uniform draws (product quadrature)."""
  s = session()
  f = s.get('e3x.so3.random_rotation')
  R = A.asarr(f(s.get('jax.random.PRNGKey')(0)))
  x, w = np.polynomial.legendre.leggauss(6)
  x, w = 0.5 * (x + 1), 0.5 * w
  m = 14
  m1 = np.zeros((3, 3))
  m2 = np.zeros((3,) * 4)
  m3 = np.zeros((3,) * 6)
  for (a, wa), j, k in itertools.product(zip(x, w), range(m), range(m)):
    u = (a, (j + 0.37) / m, (k + 0.61) / m)
    p = Point('', draw=lambda ident, shp, i: u[i[-1]])
    M = p.value(R)
    ww = wa / m / m
    m1 += ww * M
    T = np.einsum('ij,kl->ijkl', M, M)
    m2 += ww * T
    m3 += ww * np.einsum('ijkl,mn->ijklmn', T, M)
  d = np.eye(3)
  eps = np.zeros((3, 3, 3))
  for q in itertools.permutations(range(3)):
    eps[q] = np.linalg.det(d[list(q)])
  what = 'random_rotation(key) is not uniformly distributed: '
  out = diff(m1, np.zeros((3, 3)), what + 'mean of R[i,j]')
  out = out or diff(m2, np.einsum('ik,jl->ijkl', d, d) / 3, what + 'mean of R[i,j] R[k,l]')
  out = out or diff(m3, np.einsum('ikm,jln->ijklmn', eps, eps) / 6, what + 'mean of R[i,j] R[k,l] R[m,n]')
  return dict(problems=out, facts=819)


def bounded(which):
  """Single precision enclosures of the entries at antiparallel directions."""
  s = funcs.session()
  f = s.get('e3x.so3.alignment_rotation')
  out, n, open_ = [], 0, 0
  vs = [d for d in DIRS if max(map(abs, d)) <= 2][:12]
  for d in vs:
    for t in (-1.0, -0.5, -2.0) if which == 'antiparallel' else (1.0, 0.5, 4.0):
      u = A.Arr(A._obj(np.array([ival.lift(float(c)) for c in d], dtype=object)), A.F32, False, True)
      v = A.Arr(A._obj(np.array([ival.lift(float(c) * t) for c in d], dtype=object)), A.F32, False, True)
      try:
        R = A.asarr(f(u, v))
      except Unsupported:
        n += 9
        open_ += 9
        continue
      for ix in np.ndindex(3, 3):
        e = ival.lift(R.a[ix])
        n += 1
        if ival.t_bad_must(e.v):
          return [f'alignment_rotation(u={list(d)}, v={t} u): entry {list(ix)} is NaN or infinite']
        if abs(t) == 1.0 and sum(map(abs, d)) == 1 and t > 0:
          w = float(ix[0] == ix[1])
          if e.v[0] > w + 1e-3 or e.v[1] < w - 1e-3:
            return [f'alignment_rotation(u={list(d)}, v={t} u): entry {list(ix)} is {e.v[0]} but must be {w}']
        if e.v[0] > 1.001 or e.v[1] < -1.001:
          return [f'alignment_rotation(u={list(d)}, v={t} u): entry {list(ix)} lies in [{e.v[0]}, {e.v[1]}], outside the range of a rotation matrix']
        if ival.t_bad_may(e.v) or e.v[1] > 1.5 or e.v[0] < -1.5:
          open_ += 1
  if open_ > n // 2:
    raise Unsupported(f'{open_} of {n} entries have no useful enclosure')
  return dict(problems=out, facts=n - open_)


def obligations(tier):
  th = tier == 'thorough'
  k = 3 if th else 1
  obs = []
  shp = [(), (2,), (2, 3)]
  for la, lb in [((), ()), ((2,), (2,)), ((2, 3), (2, 3)), ((), (3,)), ((3,), ()), ((2, 1), (3,))]:
    obs.append(Ob(f'rotation {la} {lb}', axis_angle, (la, lb, 30 * k, 'array'), 'axis and angle', cost=2))
  for la in shp:
    obs.append(Ob(f'rotation by a number {la}', axis_angle, (la, (), 0, 'number'), 'axis and angle', cost=2))
  for sh in [((), (), ()), ((2,), (2,), (2,)), ((2, 3), (2, 3), (2, 3)), ((3,), (3,), (3,))]:
    obs.append(Ob(f'rotation_euler {sh}', euler, (sh, 40 * k), 'Euler angles', cost=2))
  for r in RELATIONS:
    for lu, lv in [((), ()), ((2,), (2,)), ((2, 2), (2, 2)), ((), (2,)), ((3,), ())]:
      obs.append(Ob(f'alignment_rotation {r} {lu} {lv}', alignment, (lu, lv, r, (24 if lu == lv else 6) * k), 'alignment', cost=4))
  for lead in shp:
    for g in ('regular', 'exact', 'near'):
      obs.append(Ob(f'euler_angles_from_rotation {lead} {g if g == "regular" else g + " gimbal lock"}', extraction, (lead, 20 * k, g), 'extraction', cost=3))
  for num in [None, 1, 2, 3] + [m for m in run.mined_ints(4, 70, files=('rotations.py',))][-4:]:
    for p in (None, 0.0, 1.0, 0.5, -1.0, 1.7, 'array'):
      obs.append(Ob(f'random_rotation {num} {p}', sampled, (num, p, 24 * k), 'random rotation', cost=3))
  obs.append(Ob('random_rotation distribution', moments, (), 'random rotation', cost=20))
  for w in ('parallel', 'antiparallel'):
    obs.append(Ob(f'alignment_rotation bounded {w}', bounded, (w,), 'bounded', cost=3))
  return obs
