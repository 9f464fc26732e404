"""C12: every differentiable operation can be compiled.

Every operation of the catalogue is interpreted as the just-in-time compiler sees it: all
numerical inputs, indices, masks, keys and parameters are traced, and every array the code
creates outside `jax.ensure_compile_time_eval` is staged as well.  Rule 'no-leak': no
traced or staged value reaches a Python decision, a conversion to a Python or numpy value,
a shape, an argument that must be static, or a cache that outlives the trace.  The same
holds for the hand-written derivative rules.
"""

from .. import arr as A
from .. import catalog
from .. import elem
from .. import interp as I
from .. import lib
from .. import poly
from .. import run
from ..errors import TracerLeak
from ..run import Obligation as Ob


def report(op, e):
  out = []
  for what, loc in e.leaks + e.numpy_on_traced:
    out.append(run.Finding('no-leak', f'{op} {run._short(loc)}', f'{op}: {what}', str(loc)))
  return out[:3]


def held(v, depth=0):
  """Traced arrays reachable from a value."""
  if isinstance(v, A.Arr):
    return v.traced
  if depth > 3:
    return False
  if isinstance(v, dict):
    return any(held(x, depth + 1) for x in v.values())
  if isinstance(v, (list, tuple, set)):
    return any(held(x, depth + 1) for x in v)
  return False


def escaped(w, name):
  """Traced values stored in module or class level state."""
  for m in w.modules.values():
    if not m.loaded or not str(m.path).startswith(I.REPO):
      continue
    for n, v in m.env.vars.items():
      if held(v):
        return [run.Finding('no-leak', f'{m.name}.{n}', f'{name}: a traced array is stored in {m.name}.{n} and outlives its trace')]
      if isinstance(v, I.ClassV):
        for k, x in v.attrs.items():
          if held(x):
            return [run.Finding('no-leak', f'{m.name}.{n}.{k}', f'{name}: a traced array is stored in {m.name}.{n}.{k} and outlives its trace')]
  return []


def traceable(i, th, lead):
  op = catalog.operations(th)[i]
  s = catalog.session()
  run.WORLDS.append(s.w)
  xs = [p.make(lead) for p in op.inputs]
  A.reset_events()
  lib.PARAM_CALL_INIT[0] = False
  facts = 0
  try:
    A.STAGED[0] = True
    r = op.call(s, *xs)
    facts += sum(y.size for y in catalog.results(r))
    # the hand-written derivative rules that the operation uses
    for c, full in list(A.events().jvp_calls):
      if c.rule is None:
        continue
      prim = [A.asarr(x) for k, x in enumerate(full) if k not in c.nondiff]
      tang = [A.Arr(A.apply(lambda v: poly.fn('tan', v) if elem.is_abs(v) else 0.0, x.a), x.dtype, False, True) for x in prim]
      out = c.rule(*[x for k, x in enumerate(full) if k in c.nondiff], tuple(prim), tuple(tang))
      facts += sum(y.size for y in catalog.results(out))
  except TracerLeak as e:
    return [run.Finding('no-leak', f'{op.name} {run._short(e.loc)}', f'{op.name}: {e.what}', str(e.loc))]
  finally:
    A.STAGED[0] = False
  return dict(problems=report(op.name, A.events()) or escaped(s.w, op.name), facts=facts)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  for i, op in enumerate(catalog.operations(th)):
    for lead in ((), (2,)) if op.batch and (op.cost < 20 or th) else ((),):
      obs.append(Ob(f'{op.name} lead={lead}', traceable, (i, th, lead), 'no-leak', cost=op.cost))
  return obs
