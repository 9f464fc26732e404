"""C09: batch entries never influence each other.

Every operation of the catalogue (functions, activations, feature utilities, layers,
indexed operations, norms, basis, harmonics, conversions and rotations) is interpreted
with leading axes over uninterpreted, batch-labelled values.  Rule 'no-crosstalk': the
dependence set of every output element of batch entry b holds labels of b only.  Rule
'same-as-single': the block of batch entry b equals, as value numbers, the result of
the call with that entry alone.
"""

import numpy as np

from .. import arr as A
from .. import catalog
from .. import poly
from .. import rep
from .. import run
from ..errors import Unsupported
from ..run import Obligation as Ob


def single(x, b):
  v = x.a[b]
  a = np.empty(np.shape(v), dtype=object)
  if a.shape:
    a[...] = v
  else:
    a[()] = v
  return A.Arr(a, x.dtype, x.weak, x.traced)


def independent(i, th, lead):
  op = catalog.operations(th)[i]
  s = catalog.session()
  run.WORLDS.append(s.w)
  xs = [p.make(lead) for p in op.inputs]
  r = catalog.results(op.call(s, *xs))
  it = poly.Interp(3)
  facts = 0
  for q, y in enumerate(r):
    if tuple(y.shape[:len(lead)]) != lead:
      return [f'{op.name}: result {q} has shape {y.shape} for leading axes {lead}']
    for b in np.ndindex(*lead):
      for ix in np.ndindex(*y.shape[len(lead):]):
        bad = [d for d in poly.deps(y.a[(*b, *ix)]) if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], tuple) and d[1] != b]
        facts += 1
        if bad:
          return [f'{op.name}: result {q} of batch entry {list(b)} element {list(ix)} depends on {bad[0][0]} of batch entry {list(bad[0][1])}']
  und = None
  for b in np.ndindex(*lead):
    z = catalog.results(op.call(s, *[single(x, b) for x in xs]))
    if len(z) != len(r):
      return [f'{op.name}: {len(z)} results for a single entry, {len(r)} for a batch']
    for q, (y, w) in enumerate(zip(r, z)):
      facts += w.size
      try:
        p = rep.compare(single(y, b), w, f'{op.name}: result {q} of batch entry {list(b)} compared with the call on that entry alone', it)
      except Unsupported as e:
        und = e
        continue
      if p:
        return p
  if und:
    raise und
  return dict(problems=[], facts=facts)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  for i, op in enumerate(catalog.operations(th)):
    if not op.batch:
      continue
    for lead in ((2,), (2, 2)) + (((3,), (1, 2)) if th or op.cost < 20 else ()):
      if len(lead) == 2 and op.cost >= 20 and not th:
        continue
      obs.append(Ob(f'{op.name} lead={lead}', independent, (i, th, lead), 'no-crosstalk, same-as-single', cost=op.cost * np.prod(lead)))
  return obs
