"""C15: global configuration takes effect at the next call and only where asked.

For every entry point with a configurable default and every combination of the global
settings, the abstract result of the call without options (after the settings were
changed through the setters) must carry the same value numbers as the result of the call
with the options passed explicitly; explicit options must win over any global setting,
also inside sublayers and when the setting changes between construction and call; setters
must change exactly their own attribute, restore the documented default, and reject
invalid values without effect.  Cache paths must be the ones in force at the call.
"""

import itertools

import numpy as np

from .. import arr as A
from .. import catalog
from .. import lib
from .. import poly
from .. import rep
from .. import run
from .. import tables
from ..errors import AnchorMissing
from ..graphs import GRAPHS, Layout
from ..run import Obligation as Ob

NORMS = ('racah', '4pi', 'orthonormal', 'schmidt')
VALUES = dict(cartesian_order=(True, False), normalization=NORMS, use_fused_tensor=(False, True))
DEFAULTS = dict(cartesian_order=True, normalization='racah', use_fused_tensor=False)
CACHES = tuple(f'{k}_cache' for k in tables.KINDS)


def session():
  s = catalog.session()
  run.WORLDS.append(s.w)
  return s


# ------------------------------------------------------------- entry points
def so3fn(name, *a, **fixed):
  def call(s, x, kw):
    return s.get('e3x.so3.' + name)(*x, *a, **fixed, **kw)
  return call


def layer(name, run_, **fixed):
  """Two steps: construction (options) and call."""
  def make(s, kw):
    return s.module('e3x.nn.' + name, **fixed, **kw)

  def call(s, x, kw, between=None):
    m = make(s, kw)
    if between:
      between()
    return run_(m, *x)
  call.two = True
  return call


def basis(s, x, kw):
  return s.get('e3x.nn.basis')(*x, max_degree=2, num=2, radial_fn=s.get('e3x.nn.basic_gaussian'), cutoff_fn=s.get('e3x.nn.smooth_cutoff'), **kw)


def ebasis(s, x, kw):
  return s.module('e3x.nn.ExponentialBasis')(*x, max_degree=2, num=1, radial_fn=s.get('e3x.nn.exponential_gaussian'), **kw)


def graph(fmt):
  n, edges = GRAPHS['unequal']
  return n, Layout(n, edges, fmt)


def mp(fmt, **o):
  n, lay = graph(fmt)
  return n, lay, lay.kwargs()


def entries(th):
  """name -> (options, inputs(), call, extra positional kwargs)."""
  out = {}
  r = lambda: [catalog.In('r', (3,)).make((2,))]
  CN = ('cartesian_order', 'normalization')
  C = ('cartesian_order',)
  CF = ('cartesian_order', 'use_fused_tensor')
  for L in (0, 1, 2, 3):
    for n in (False, True):
      out[f'spherical_harmonics {L} r_is_normalized={n}'] = (CN, r, so3fn('spherical_harmonics', max_degree=L, r_is_normalized=n))
    out[f'solid_harmonics {L}'] = (C, r, so3fn('solid_harmonics', max_degree=L))
    if L:
      out[f'irreps_to_tensor {L}'] = (CN, lambda L=L: [catalog.In('x', (2 * L + 1,)).make(())], so3fn('irreps_to_tensor', degree=L))
      out[f'tensor_to_irreps {L}'] = (CN, lambda L=L: [catalog.In('x', (3,) * L).make(())], so3fn('tensor_to_irreps', degree=L))
  for d in ((0, 0, 0), (1, 1, 1), (1, 2, 1), (2, 1, 2), (2, 2, 2), (0, 2, 1)):
    out[f'clebsch_gordan {d}'] = (C, lambda: [], so3fn('clebsch_gordan', *d))
  for d in ((0, 0, 0), (1, 1, 1), (1, 2, 1), (2, 1, 2), (1, 1, 0), (2, 2, 2)):
    out[f'clebsch_gordan_for_degrees {d}'] = (C, lambda: [], so3fn('clebsch_gordan_for_degrees', *d))
  for L in (0, 1, 2) if th else (0, 1):
    out[f'wigner_d {L}'] = (C, lambda: [catalog.In('rot', (3, 3)).make(())], so3fn('wigner_d', max_degree=L))
  out['basis'] = (C, r, basis)
  out['ExponentialBasis'] = (C, r, ebasis)
  for P, L, L3 in ((1, 1, None), (2, 1, 2), (1, 2, 1)) if th else ((1, 1, None), (2, 1, 1)):
    x = lambda P=P, L=L: [rep.features('x', (), P, L, 1), rep.features('y', (), P, L, 1)]
    for m in ('Tensor', 'FusedTensor'):
      out[f'{m} P={P} L={L}->{L3}'] = (C, x, layer(m, lambda m, *x: m(*x), max_degree=L3))
    out[f'TensorDense P={P} L={L}->{L3}'] = (CF, lambda P=P, L=L: [rep.features('x', (), P, L, 1)], layer('TensorDense', lambda m, *x: m(*x), max_degree=L3))
  for fmt in ('dense', 'sparse'):
    n, lay = graph(fmt)
    x = lambda n=n, lay=lay: [rep.features('x', (n,), 1, 1, 1), rep.features('b', lay.shape, 1, 1, 1)]
    out[f'MessagePass {fmt}'] = (CF, x, layer('MessagePass', lambda m, *x, lay=lay: m(*x, **lay.kwargs())))
    out[f'SelfAttention {fmt}'] = (CF, x, layer('SelfAttention', lambda m, *x, lay=lay: m(*x, **lay.kwargs()), max_degree=1))
    out[f'MultiHeadAttention {fmt}'] = (CF, lambda n=n, lay=lay: [rep.features('q', (n,), 1, 1, 1), *x(n, lay)], layer('MultiHeadAttention', lambda m, *x, lay=lay: m(*x, **lay.kwargs()), max_degree=1))
  return out


def setter(s, k):
  try:
    return s.get(f'e3x.Config.set_{k}')
  except (AttributeError, KeyError) as e:
    raise AnchorMissing(f'Config.set_{k} not found') from e


def state(s):
  c = s.get('e3x.Config')
  return {k: getattr_(s, c, k) for k in (*VALUES, *CACHES)}


def getattr_(s, c, k):
  return s.get('e3x.Config.' + k)


def keys(r):
  out = []
  for a in catalog.results(r):
    out.append((a.shape, a.dtype.name, [poly.akey(v) for v in a.a.flat]))
  return out


def first_difference(g, w):
  if len(g) != len(w):
    return f'{len(g)} results instead of {len(w)}'
  for x, y in zip(g, w):
    if x[:2] != y[:2]:
      return f'shape/type {x[:2]} instead of {y[:2]}'
    for i, (u, v) in enumerate(zip(x[2], y[2])):
      if u != v:
        return f'element {list(np.unravel_index(i, x[0]))} differs'
  return None


def call(s, e, kw, between=None):
  opts, inputs, fn = e
  A.events().params.clear()
  if between is not None:
    if getattr(fn, 'two', False):
      return keys(fn(s, inputs(), kw, between))
    between()
  return keys(fn(s, inputs(), kw))


def entry(name, th, configs):
  e = entries(th)[name]
  s = session()
  out, facts = [], 0
  opts = e[0]
  ref = {}

  def reference(cfg):
    """Result with all options explicit, in a session whose settings were never changed."""
    k = tuple(cfg[o] for o in opts)
    if k not in ref:
      for o in VALUES:
        setter(s, o)()
      ref[k] = call(s, e, {o: cfg[o] for o in opts})
    return ref[k]

  def put(cfg):
    for o in VALUES:
      setter(s, o)(cfg[o])

  def fail(rule, msg):
    out.append(run.Finding(rule, name, f'{name}: {msg}'))

  want = {i: reference(c) for i, c in enumerate(configs)}
  for i, c in enumerate(configs):
    # settings in force at the call are used for options left open
    put(c)
    d = first_difference(call(s, e, {}), want[i])
    facts += 1
    if d:
      fail('setting-ignored', f'after {show(c)} the call without options differs from the call with {show(c, opts)}: {d}')
    # each option open in turn, the others explicit
    for o in opts:
      if len(opts) > 1:
        j = next((q for q in configs if q != c and q[o] == c[o]), None)
        if j is not None:
          put(j)
          d = first_difference(call(s, e, {p: c[p] for p in opts if p != o}), want[i])
          facts += 1
          if d:
            fail('setting-ignored', f'after {show(j)} the call with {show(c, [p for p in opts if p != o])} differs from the call with {show(c, opts)}: {d}')
    # explicit options win over every other setting
    for q in configs:
      if q is c:
        continue
      put(q)
      d = first_difference(call(s, e, {o: c[o] for o in opts}), want[i])
      facts += 1
      if d:
        fail('explicit-option', f'after {show(q)} the call with explicit {show(c, opts)} changes: {d}')
      if getattr(e[2], 'two', False):
        # settings changed between construction and call: options fixed at construction
        put(c)
        d = first_difference(call(s, e, {o: c[o] for o in opts}, lambda: put(q)), want[i])
        facts += 1
        if d:
          fail('explicit-option', f'changing the settings to {show(q)} between construction (explicit {show(c, opts)}) and call changes the result: {d}')
  put(DEFAULTS)
  return dict(problems=out[:4], facts=facts)


def show(c, opts=None):
  return ', '.join(f'{k}={c[k]}' for k in (opts if opts is not None else c))


# ------------------------------------------------------------------- setters
def setters():
  out, facts = [], 0
  s = session()
  init = state(s)
  for k, v in DEFAULTS.items():
    facts += 1
    if init[k] != v or type(init[k]) is not type(v):
      out.append(run.Finding('defaults', k, f'Config.{k} is {init[k]!r} initially, documented default {v!r}'))
  for k in CACHES:
    facts += 1
    if init[k] is not None:
      out.append(run.Finding('defaults', k, f'Config.{k} is {init[k]!r} initially'))
  seqs = []
  for k, vs in VALUES.items():
    for v in vs:
      seqs.append((k, (v,), {}, v))
      seqs.append((k, (), {k: v}, v))
    seqs.append((k, (), {}, DEFAULTS[k]))
  for k in CACHES:
    seqs.append((k, ('/some/dir/table.npz',), {}, '/some/dir/table.npz'))
    seqs.append((k, (), dict(path='/other.npz'), '/other.npz'))
    seqs.append((k, (lib.FakePath(s.w.fs, '/p.npz'),), {}, '/p.npz'))
    seqs.append((k, (None,), {}, None))
    seqs.append((k, ('/some/dir/table.npz',), {}, '/some/dir/table.npz'))
    seqs.append((k, (), {}, None))
  for x, y in itertools.product(seqs, seqs):
    for k, a, kw, v in (x, y):
      before = state(s)
      setter(s, k)(*a, **kw)
      now = state(s)
      facts += len(now)
      for q in now:
        g = str(now[q]) if isinstance(now[q], lib.FakePath) else now[q]
        b = str(before[q]) if isinstance(before[q], lib.FakePath) else before[q]
        w = v if q == k else b
        if g != w or (q in VALUES and type(g) is not type(w)):
          out.append(run.Finding('setters', f'set_{k}', f'set_{k}({a or kw}) leaves Config.{q} = {g!r}, expected {w!r}'))
        if q == k and q in CACHES and v is not None and not isinstance(now[q], lib.FakePath):
          out.append(run.Finding('setters', f'set_{k}', f'set_{k}({a or kw}) stores {type(now[q]).__name__} instead of a path'))
    if out:
      break
  if s.get('e3x.config.Config') is not s.get('e3x.Config'):
    out.append(run.Finding('setters', 'Config', 'e3x.Config and e3x.config.Config are different objects'))
  return dict(problems=out[:5], facts=facts)


def invalid():
  out, facts = [], 0
  s = session()
  r = catalog.In('r', (3,)).make(())
  bad = ('', 'Racah', 'schmid', 'rack', None, 'orthonormal ', '4', 0)
  for prev in NORMS:
    for v in bad:
      setter(s, 'normalization')(prev)
      before = state(s)
      facts += 2
      try:
        setter(s, 'normalization')(v)
        out.append(run.Finding('invalid-setting', 'set_normalization', f'set_normalization({v!r}) is accepted'))
      except ValueError:
        pass
      if state(s) != before:
        out.append(run.Finding('invalid-setting', 'set_normalization', f'the rejected set_normalization({v!r}) changes the settings'))
  setter(s, 'normalization')()
  for v in bad:
    if v is None:
      continue
    for n, a, kw in (('spherical_harmonics', (r,), dict(max_degree=1)), ('irreps_to_tensor', (r,), dict(degree=1)), ('tensor_to_irreps', (r,), dict(degree=1))):
      facts += 1
      try:
        s.get('e3x.so3.' + n)(*a, **kw, normalization=v)
        out.append(run.Finding('invalid-setting', n, f'{n} accepts normalization={v!r}'))
      except ValueError:
        pass
  return dict(problems=out[:5], facts=facts)


# --------------------------------------------------------------------- caches
def cache_paths(kind, first):
  """The cache file in force at the call is the one read and written."""
  t = tables.Tables(kind)
  out, facts = [], 0
  fs = t.fs
  paths = [None, '/cache/a.npz', '/cache/b.npz', None, '/cache/a.npz']
  if first:
    paths = paths[1:]
  others = [k for k in tables.KINDS if k != kind]
  for k in others:
    t.w.get(f'e3x.Config.set_{k}_cache')(f'/foreign/{k}.npz')
  L = 0
  for p in paths:
    if p is None:
      t.setter()
    else:
      t.setter(p)
    L += 1
    n0 = len(fs.log)
    t.request(L)
    touched = {str(q) for op, q in ((e[0], e[1]) for e in fs.log[n0:]) if op in ('exists', 'write', 'savez', 'open')}
    user = {q for q in touched if q.startswith('/cache') or q.startswith('/foreign')}
    facts += 2
    want = set() if p is None else {p}
    if not user <= want:
      out.append(run.Finding('cache-path', kind, f'{kind} table with cache path {p} set touches {sorted(user - want)}'))
    if p is not None and p not in {str(q) for q in fs.files}:
      out.append(run.Finding('cache-path', kind, f'{kind} table with cache path {p} set is not stored there (files: {sorted(map(str, fs.files))})'))
    if p is not None and p not in user:
      out.append(run.Finding('cache-path', kind, f'{kind} table with cache path {p} set never accesses that file'))
  return dict(problems=out[:3], facts=facts)


def cache_used(kind, L):
  """A complete table at the configured path is used, from the very next request."""
  data = tables.contents(kind, L)
  t = tables.Tables(kind)
  t.fs.files['/cache/full.npz'] = data
  for k in tables.KINDS:
    if k != kind:
      t.w.get(f'e3x.Config.set_{k}_cache')('/cache/none.npz')
  out = []
  if L:
    t.setter('/cache/other.npz')
    t.request(0)
  n = t.leaf_calls
  t.setter('/cache/full.npz')
  t.request(L)
  if t.leaf_calls > n:
    out.append(run.Finding('cache-path', kind, f'{kind}: the complete table at the configured cache path is not used ({t.leaf_calls - n} coefficients are recomputed)'))
  return dict(problems=out, facts=1)


def public_cache(kind, entry_):
  """The same through the public function that uses the table."""
  t = tables.Tables(kind)
  fs = t.fs
  out, facts = [], 0
  calls = {
      'spherical_harmonics': lambda L: t.w.get('e3x.so3.spherical_harmonics')(catalog.In('r', (3,)).make(()), max_degree=L),
      'solid_harmonics': lambda L: t.w.get('e3x.so3.solid_harmonics')(catalog.In('r', (3,)).make(()), max_degree=L),
      'clebsch_gordan': lambda L: t.w.get('e3x.so3.clebsch_gordan')(L, L, L),
      'clebsch_gordan_for_degrees': lambda L: t.w.get('e3x.so3.clebsch_gordan_for_degrees')(L, L, L),
      'wigner_d': lambda L: t.w.get('e3x.so3.wigner_d')(catalog.In('r', (3, 3)).make(()), max_degree=L),
      'irreps_to_tensor': lambda L: t.w.get('e3x.so3.irreps_to_tensor')(catalog.In('x', (2 * L + 1,)).make(()), degree=L),
      'tensor_to_irreps': lambda L: t.w.get('e3x.so3.tensor_to_irreps')(catalog.In('x', (3,) * L).make(()), degree=L),
  }
  for L, p in ((1, '/cache/a.npz'), (1, '/cache/b.npz'), (2, None)) if entry_ != 'wigner_d' else ((1, '/cache/a.npz'), (1, '/cache/b.npz')):
    t.setter(p)
    calls[entry_](L)
    facts += 1
    have = {str(q) for q in fs.files}
    if p is not None and p not in have:
      out.append(run.Finding('cache-path', entry_, f'{entry_} with cache path {p} set does not store its table there'))
  return dict(problems=out[:3], facts=facts)


def configurations(opts, th):
  """All combinations of the relevant settings; the others vary along."""
  free = [o for o in VALUES if o not in opts]
  out = []
  for i, vs in enumerate(itertools.product(*(VALUES[o] for o in opts))):
    c = dict(zip(opts, vs))
    for o in free:
      c[o] = VALUES[o][i % len(VALUES[o])]
    out.append(c)
    if th or len(opts) == 1:
      d = dict(c)
      for o in free:
        d[o] = VALUES[o][(i + 1) % len(VALUES[o])]
      out.append(d)
  if not th and len(out) > 5:
    # a covering selection: every value of every option, all pairs with the first
    out = out[:2] + out[4:6] + out[-1:]
  return [{o: c[o] for o in VALUES} for c in out]


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  for n, e in entries(th).items():
    cost = 40 if 'Attention' in n else 15 if 'Message' in n or 'wigner' in n else 5 if 'Tensor' in n else 1
    obs.append(Ob(n, entry, (n, th, configurations(e[0], th)), 'settings', cost=cost))
  obs.append(Ob('setters', setters, (), 'setters', cost=5))
  obs.append(Ob('invalid settings', invalid, (), 'invalid-setting', cost=2))
  for kind in tables.KINDS:
    for L in (0, 1, 2):
      obs.append(Ob(f'cache used {kind} {L}', cache_used, (kind, L), 'cache-path', cost=5))
    for f in (0, 1):
      obs.append(Ob(f'cache path {kind} {f}', cache_paths, (kind, f), 'cache-path', cost=10))
  for kind, es in dict(spherical_harmonics=('spherical_harmonics', 'solid_harmonics'), clebsch_gordan=('clebsch_gordan', 'clebsch_gordan_for_degrees'),
                       wigner_d=('wigner_d',), tensor_conversion=('irreps_to_tensor', 'tensor_to_irreps')).items():
    for e in es:
      obs.append(Ob(f'cache path via {e}', public_cache, (kind, e), 'cache-path', cost=10))
  return obs
