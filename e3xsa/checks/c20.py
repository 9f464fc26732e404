"""C20: operations are pure.

Effect and alias analysis.  All operations of a group are interpreted in one instance of
the package, in forward order, once more, and in backward order in a second instance;
values are value numbers, so equal results are equal terms.  Rules: 'repeatable' (the
result of a call depends neither on what was called before nor on the order of calls),
'arguments' (no array, list or dictionary that the caller passed is written),
'configuration' (the Config attributes, the precision mode and the environment are left
alone), 'keys' (every random draw comes from a key derived from the given one, and no
key is used twice), 'isolated' (no result is a numpy view of state that the package
keeps) and 'ambient' (no call site reaches process-wide state: global random
generators, jax or numpy settings, environment variables).
"""

import ast
import itertools
import os

import numpy as np

from .. import arr as A
from .. import catalog
from .. import interp as I
from .. import lib
from .. import poly
from .. import run
from ..errors import EngineError
from ..run import Finding
from ..run import Obligation as Ob


# ------------------------------------------------------------- extra operations
def extra():
  ops = []

  def add(name, inputs, call, group):
    ops.append(catalog.Op(name, inputs, call, group, 1, False))

  In = catalog.In
  for n in (1, 2, 3):
    add(f'sparse_pairwise_indices {n}', [], lambda s, n=n: s.get('e3x.ops.sparse_pairwise_indices')(n), 'indexed')
    add(f'dense_pairwise_indices {n}', [], lambda s, n=n: s.get('e3x.ops.dense_pairwise_indices')(n), 'indexed')
  for L in (0, 1, 2, 3):
    for c in (True, False):
      add(f'clebsch_gordan {L} cartesian={c}', [],
          lambda s, L=L, c=c: s.get('e3x.so3.clebsch_gordan')(L, L, min(2 * L, 2), cartesian_order=c), 'so3')
    for f in ('even_degree_mask', 'odd_degree_mask'):
      add(f'{f} {L}', [], lambda s, L=L, f=f: s.get('e3x.nn.' + f)(L), 'features')
  return ops


def ops_of(group, th):
  ops = catalog.operations(th) + extra()
  if group == '*':
    return [o for o in ops if o.cost <= (8 if th else 4)]
  ops = [o for o in ops if o.group == group.split('/')[0]]
  if '/' in group:
    part = group.split('/')[1]
    ops = [o for o in ops if section(o) == part]
  return ops


def section(o):
  w = o.name.split()[0].split('(')[0]
  return {'FusedTensor': 'Tensor'}.get(w, w)


# ------------------------------------------------------------------ snapshots
def freeze(v):
  """Copy of a Python-level argument; array cells are (immutable) value numbers."""
  if isinstance(v, A.Arr):
    return v.a.copy(), v.dtype.name
  if isinstance(v, dict):
    return {k: freeze(x) for k, x in v.items()}
  if isinstance(v, list):
    return [freeze(x) for x in v]
  return v


def intact(b, v):
  """The argument still has the value it had when it was copied."""
  if isinstance(v, A.Arr):
    if not isinstance(b, tuple) or b[0].shape != v.a.shape or b[1] != v.dtype.name:
      return False
    return all(x is y or poly.same(x, y) for x, y in zip(b[0].flat, v.a.flat))
  if isinstance(v, dict):
    return isinstance(b, dict) and list(b) == list(v) and all(intact(b[k], v[k]) for k in v)
  if isinstance(v, list):
    return isinstance(b, list) and len(b) == len(v) and all(map(intact, b, v))
  return b is v or b == v


def config_of(s):
  c = s.get('e3x.Config')
  return {k: repr(v) for k, v in c.attrs.items() if not callable(v) and not isinstance(v, (I.FuncV, I.StaticV))}


def settings(s):
  return dict(config=config_of(s), x64=A.X64[0], environ=dict(s.w.lib['os'].environ) if 'os' in s.w.lib else {})


def derived(ident):
  """The key (or caller-given stream) at the root of a key identifier."""
  while isinstance(ident, tuple) and ident and ident[0] in ('split', 'fold'):
    ident = ident[1]
  return ident


def key_rule(op, rng):
  out = []
  used = {}
  for what, ident, loc in rng:
    root = derived(ident)
    if not (isinstance(root, tuple) and root and root[0] in ('input', 'param')):
      out.append(Finding('keys', f'{op} {run._short(loc)}', f'{op}: {what} uses key {root!r}, which is not derived from the given key', str(loc)))
    if ident in used:
      w2, l2 = used[ident]
      out.append(Finding('keys', f'{op} {run._short(loc)}',
                         f'{op}: the same key is used twice: {w2} at {run._short(l2)} and {what} at {run._short(loc)}', str(loc)))
    used[ident] = (what, loc)
  return out[:2]


def change(a, b, k):
  if isinstance(a, dict):
    d = [q for q in {**a, **b} if a.get(q) != b.get(q)]
    return '; '.join(f'{k} {q} was {a.get(q)} before the call and is {b.get(q)} after it' for q in d)
  return f'{k} was {a!r} before the call and is {b!r} after it'


def invoke(s, op, lead, np_=False):
  """Runs one operation on fresh argument objects; returns (results, findings)."""
  xs = [p.make(lead) for p in op.inputs]
  if np_:
    for x in xs:
      if isinstance(x, A.Arr):
        x.np_, x.traced = True, False
        x.a = x.a.copy()
  before = [freeze(x) for x in xs]
  st = settings(s)
  A.events().rng.clear()
  A.events().params.clear()
  s.w.flax_stack.clear()
  s.w.flax_counts[:] = [{}]
  r = op.call(s, *xs)
  out = []
  for p, x, b in zip(op.inputs, xs, before):
    if not intact(b, x):
      out.append(Finding('arguments', f'{op.name} {p.name}', f'{op.name}: the argument {p.name} was modified by the call'))
  now = settings(s)
  if now != st:
    for k in st:
      if now[k] != st[k]:
        out.append(Finding('configuration', op.name, f'{op.name}: {change(st[k], now[k], k)}'))
  out += key_rule(op.name, A.events().rng)
  return r, out


def flat(r):
  if isinstance(r, dict):
    return [y for k in sorted(r, key=repr) for y in flat(r[k])]
  if isinstance(r, (tuple, list)):
    return [y for q in r for y in flat(q)]
  return [A.asarr(r)]


def differs(a, b):
  if len(a) != len(b):
    return f'{len(a)} results, then {len(b)}'
  for i, (x, y) in enumerate(zip(a, b)):
    if tuple(x.shape) != tuple(y.shape) or x.dtype.name != y.dtype.name:
      return f'result {i} is {x.dtype.name}{list(x.shape)}, then {y.dtype.name}{list(y.shape)}'
    for ix in np.ndindex(*x.shape):
      if not poly.same(x.a[ix], y.a[ix]):
        return f'element {list(ix)} of result {i} is {short(x.a[ix])}, then {short(y.a[ix])}'
  return None


def short(v):
  s = repr(v)
  return s if len(s) < 120 else s[:117] + '...'


def state_arrays(w):
  """numpy arrays held at module or class level, with their names."""
  out = []

  def walk(v, name, depth):
    if isinstance(v, A.Arr):
      if v.np_:
        out.append((name, v))
    elif depth < 4 and isinstance(v, dict):
      for k, x in list(v.items()):
        walk(x, f'{name}[{k!r}]', depth + 1)
    elif depth < 4 and isinstance(v, (list, tuple)):
      for k, x in enumerate(v):
        walk(x, f'{name}[{k}]', depth + 1)
    elif depth < 2 and isinstance(v, I.ClassV):
      for k, x in list(v.attrs.items()):
        walk(x, f'{name}.{k}', depth + 1)

  for m in w.modules.values():
    if m.loaded and str(m.path).startswith(I.REPO):
      for n, v in list(m.env.vars.items()):
        walk(v, f'{m.name}.{n}', 0)
  return out


def twin(s):
  """A second instance of the package in the same universe of value numbers."""
  t = object.__new__(type(s))
  t.__dict__.update(s.__dict__)
  t.w = I.World()
  t.w.import_('e3x')
  t._cg = s._cg
  t.hooks_fired = set()
  t.install()
  t.hook_tables()
  return t


def history(group, th, lead):
  s = catalog.session()
  run.WORLDS.append(s.w)
  ops = [o for o in ops_of(group, th) if o.batch or not lead]
  out, facts, skipped = [], 0, []
  got = {}

  def go(u, op, label):
    nonlocal facts
    try:
      r, f = invoke(u, op, lead)
    except EngineError as e:
      skipped.append(f'{op.name}: {e}')
      return
    out.extend(f)
    rs = flat(r)
    facts += sum(y.size for y in rs)
    for y in rs:
      if y.np_:
        for name, v in state_arrays(u.w):
          if np.shares_memory(y.a, v.a):
            out.append(Finding('isolated', op.name, f'{op.name}: a result is a writable numpy view of {name}'))
    if op.name in got:
      d = differs(got[op.name][1], rs)
      if d:
        out.append(Finding('repeatable', op.name, f'{op.name}: {got[op.name][0]} and {label} give different results: {d}'))
    else:
      got[op.name] = (label, rs)

  for op in ops:
    go(s, op, 'the first call')
    go(s, op, 'the same call repeated')
  for op in ops:
    go(s, op, 'a call after all others')
  t = twin(s)
  run.WORLDS.append(t.w)
  for op in reversed(ops):
    go(t, op, 'a call with the history reversed')
  if not out and skipped:
    from ..errors import Unsupported
    raise Unsupported('; '.join(skipped[:3]))
  uniq = {}
  for f in out:
    uniq.setdefault(f.key(), f)
  return dict(problems=list(uniq.values())[:6], facts=facts)


# ------------------------------------------------------------ numpy arguments
def numpy_args(group, th):
  s = catalog.session()
  run.WORLDS.append(s.w)
  out, facts = [], 0
  for op in ops_of(group, th):
    if not op.inputs or op.cost > 20:
      continue
    try:
      r, f = invoke(s, op, (), True)
    except (EngineError, AttributeError, TypeError, ValueError, IndexError):
      continue      # not an accepted argument type here
    facts += len(op.inputs)
    out += [x for x in f if x.rule in ('arguments', 'configuration')]
  return dict(problems=out[:6], facts=facts)


def failing(group, th):
  """A call that is rejected leaves arguments and settings alone as well."""
  out, facts = [], 0
  s = catalog.session()
  run.WORLDS.append(s.w)
  for op in ops_of(group, th):
    if op.cost > 20:
      continue
    for i, how in itertools.product(range(len(op.inputs)), ('extra', 'less', 'grown')):
      xs = [p.make(()) for p in op.inputs]
      x = xs[i]
      if not isinstance(x, A.Arr) or (how != 'extra' and x.a.ndim == 0):
        continue
      a = x.a[..., None] if how == 'extra' else x.a[..., 0] if how == 'less' else np.concatenate([x.a, x.a[..., -1:]], axis=-1)
      xs[i] = A.Arr(A._obj(np.asarray(a, dtype=object)), x.dtype, False, True)
      b, st = [freeze(q) for q in xs], settings(s)
      A.events().params.clear()
      s.w.flax_stack.clear()
      s.w.flax_counts[:] = [{}]
      try:
        op.call(s, *xs)
      except Exception:      # of the analysed program or of the engine
        pass
      facts += 1
      now = settings(s)
      for k in st:
        if now[k] != st[k]:
          out.append(Finding('configuration', op.name, f'{op.name} with a malformed {op.inputs[i].name}: {change(st[k], now[k], k)}'))
      if not all(map(intact, b, xs)):
        out.append(Finding('arguments', op.name, f'{op.name} with a malformed {op.inputs[i].name}: an argument was modified by the call'))
      if out:
        return dict(problems=out[:6], facts=facts)
  return dict(problems=out, facts=facts)


def containers():
  """Lists and dictionaries of the caller are not modified."""
  s = catalog.session()
  run.WORLDS.append(s.w)
  out, facts = [], 0

  def check(name, f, *args, **kw):
    nonlocal facts
    b = [freeze(a) for a in (*args, *kw.values())]
    try:
      f(*args, **kw)
      f(*args, **kw)
    except EngineError:
      return
    facts += len(b)
    for i, (x, y) in enumerate(zip(b, (*args, *kw.values()))):
      if not intact(x, y):
        out.append(Finding('arguments', f'{name} argument {i}', f'{name}: the container passed as argument {i} ({(["positional"] * len(args) + list(kw))[i]}) was modified by the call'))

  mk = lambda n, *sh: catalog.In(n, sh).make(())
  for degrees, mult, top in (([0, 1], 1, 2), ([1, 0, 1], 1, 2), ([2, 1, 0], 1, 2), ([0, 1], 2, 2)):
    n = {}
    for la, lb in itertools.product(degrees, degrees):
      for l in range(abs(la - lb), min(la + lb, top) + 1):
        n[l] = n.get(l, 0) + 1
    for shift in (False, True):
      irr = [mk(f'i{l}', 2 * l + 1, n.get(l, 0) * mult * mult) for l in range(top + 1)]
      check('make_square_matrix', s.get('e3x.matrix.make_square_matrix'), irr, degrees=list(degrees), mult=mult, max_degree=top, shift_by_id=shift, precision=None)
      side = sum(2 * l + 1 for l in degrees) * mult
      check('get_traces', s.get('e3x.matrix.matmat.get_traces'), mk('m', side, side), list(degrees), mult, shift)
  check('combine_irreps', s.get('e3x.matrix.matmat.combine_irreps'), mk('x', 4, 3), [mk('w0', 3, 2), mk('w1', 3, 2)], None)
  check('init_matrix_irreps_weights', s.get('e3x.matrix.init_matrix_irreps_weights'), lib.KeyV(('input', 'key')), 2, {0: 2, 1: 1}, 1, 0.5)
  check('add', s.get('e3x.nn.add'), mk('x', 2, 4, 2), mk('y', 1, 9, 2))
  lst = [1, 0]
  check('norm', s.get('e3x.ops.norm'), mk('x', 2, 3), axis=tuple(lst))
  return dict(problems=out[:6], facts=facts)


# --------------------------------------------------------------------- ambient
WRITERS = {
    'jax.config.update': 'changes the jax configuration', 'jax.config.parse_flags_with_absl': 'changes the jax configuration',
    'numpy.seterr': 'changes the numpy error state', 'numpy.seterrcall': 'changes the numpy error state',
    'numpy.setbufsize': 'changes numpy settings', 'os.putenv': 'changes the environment', 'os.chdir': 'changes the working directory',
    'os.umask': 'changes the file mode mask', 'os.unsetenv': 'changes the environment', 'os.environ.update': 'changes the environment',
    'os.environ.setdefault': 'changes the environment', 'os.environ.pop': 'changes the environment', 'os.environ.clear': 'changes the environment',
    'sys.setrecursionlimit': 'changes the interpreter state', 'gc.disable': 'changes the interpreter state',
    'locale.setlocale': 'changes the locale', 'socket.setdefaulttimeout': 'changes process state', 'decimal.setcontext': 'changes process state',
}
SEEDED = {'numpy.random.default_rng', 'numpy.random.Generator', 'numpy.random.RandomState', 'random.Random', 'numpy.random.PCG64', 'numpy.random.SeedSequence'}


def dotted(n, names):
  parts = []
  while isinstance(n, ast.Attribute):
    parts.append(n.attr)
    n = n.value
  if isinstance(n, ast.Name) and n.id in names:
    return '.'.join([names[n.id], *reversed(parts)])
  return None


def import_names(tree):
  names = {}
  for n in ast.walk(tree):
    if isinstance(n, ast.Import):
      for a in n.names:
        names[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
    elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
      for a in n.names:
        names[a.asname or a.name] = f'{n.module}.{a.name}'
  return names


def ambient(path):
  tree = I.parse(path)
  names = import_names(tree)
  out, calls = [], 0
  rel = run._short(path)

  def bad(n, what):
    out.append(Finding('ambient', f'{rel}: {what.split(" ")[0]}', f'{rel}:{n.lineno}: {what}', f'{rel}:{n.lineno}'))

  for n in ast.walk(tree):
    if isinstance(n, ast.Call):
      calls += 1
      d = dotted(n.func, names)
      if d is None:
        continue
      if d in WRITERS:
        bad(n, f'{d} {WRITERS[d]}')
      elif d in SEEDED:
        if not n.args and not n.keywords:
          bad(n, f'{d} without a seed draws from process-wide entropy')
      elif d.startswith(('numpy.random.', 'random.')) and d.count('.') <= 2:
        bad(n, f'{d} uses a process-wide random generator')
      elif d in ('jax.random.PRNGKey', 'jax.random.key') and in_function(tree, n):
        bad(n, f'{d} creates a key that does not come from the caller')
    elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
      ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
      for t in ts:
        if isinstance(t, ast.Subscript) and dotted(t.value, names) == 'os.environ':
          bad(n, 'os.environ is written')
        d = dotted(t, names) if isinstance(t, ast.Attribute) else None
        if d and (d.startswith('jax.config.') or d.startswith('numpy.')):
          bad(n, f'{d} is assigned')
  return dict(problems=out[:6], facts=calls)


def in_function(tree, node):
  for f in ast.walk(tree):
    if isinstance(f, (ast.FunctionDef, ast.Lambda)):
      for n in ast.walk(f):
        if n is node:
          return True
  return False


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  groups = {}
  for o in catalog.operations(th) + extra():
    g = o.group
    if g in ('layer', 'so3', 'function', 'matrix'):
      g = f'{g}/{section(o)}'
    groups[g] = groups.get(g, 0) + o.cost
  for g, cost in groups.items():
    obs.append(Ob(f'history {g}', history, (g, th, ()), 'repeatable', cost=4 * cost))
    if th or cost < 60:
      obs.append(Ob(f'history {g} batched', history, (g, th, (2,)), 'repeatable', cost=8 * cost))
    obs.append(Ob(f'rejected calls {g}', failing, (g, th), 'configuration', cost=2 * cost, valid=False))
    obs.append(Ob(f'numpy arguments {g}', numpy_args, (g, th), 'arguments', cost=cost))
  obs.append(Ob('history of all inexpensive operations', history, ('*', th, ()), 'repeatable', cost=900))
  obs.append(Ob('containers', containers, (), 'arguments', cost=5))
  for p in run.source_stats():
    if not p.endswith('_test.py'):
      obs.append(Ob(f'call sites of {run._short(p)}', ambient, (p,), 'ambient', cost=1))
  return obs
