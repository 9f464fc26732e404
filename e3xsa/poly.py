"""Term domain: polynomials over hash-consed atoms (global value numbering).

An abstract scalar is a Python number (constant propagation) or a `Poly`, a
normal form  sum_k c_k * prod(atoms)  over interned atoms.  Atoms carry

* `deps`   - the set of input labels the value may depend on (dependence domain)
* `slots`  - tensor indices ((l, m), ...) of the component the atom stands for
* `parity` - behaviour under inversion (+1/-1)
* `bad`    - None, or the reason why the atom is not a well typed O(3) quantity

`fold` is the transfer function of the representation-type domain: it closes
complete sums over magnetic indices (contractions with an invariant tensor such
as a Clebsch-Gordan block or a Kronecker delta) and names the result, so that a
whole layer is summarised by one typed atom per component.
"""

import math

from .errors import Unsupported

_ATOMS = []           # id -> Atom
_INTERN = {}          # key -> Atom
FOLD = [False]        # representation typing switched on?
SELECT = [False]      # keep selections as opaque applications
LOC = [None]          # current source location, maintained by the interpreter


class Atom:
  __slots__ = ('id', 'key', 'kind', 'tkey', 'slots', 'parity', 'deps', 'bad',
               'ind', 'name', 'args', 'loc')

  def __repr__(self):
    return self.name


def reset():
  _ATOMS.clear()
  _INTERN.clear()


def atom(kind, key, slots=(), parity=1, deps=frozenset(), bad=None, ind=False,
         name=None, args=()):
  k = (kind, key, slots)
  a = _INTERN.get(k)
  if a is not None:
    return a
  a = Atom()
  a.id = len(_ATOMS)
  a.key = k
  a.kind = kind
  tk = (kind, key)
  t = _INTERN.get(('tkey', tk))
  if t is None:
    t = len(_INTERN)
    _INTERN[('tkey', tk)] = t
  a.tkey = t
  a.slots = slots
  a.parity = parity
  a.deps = frozenset(deps)
  a.bad = bad
  a.ind = ind
  a.name = name or f'{kind}{key}'
  a.args = args
  a.loc = LOC[0]
  _ATOMS.append(a)
  _INTERN[k] = a
  return a


def var(kind, key, slots=(), parity=1, deps=None, name=None, ind=False):
  """A Poly consisting of a single fresh input atom."""
  slots = tuple(s for s in slots if s[0] > 0)
  if deps is None:
    deps = frozenset([(kind, key)])
  a = atom(kind, key, slots, parity, deps, None, ind, name)
  return Poly({(a.id,): 1})


def _isnum(x):
  return isinstance(x, (int, float, bool, complex)) or hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0


def _r(c):
  """Round a coefficient for hashing."""
  if isinstance(c, bool):
    return int(c)
  if isinstance(c, int):
    return c
  if isinstance(c, float):
    if c != c or c in (math.inf, -math.inf):
      return repr(c)
    if c == int(c) and abs(c) < 1e15:
      return int(c)
    return float(f'{c:.9g}')
  if isinstance(c, complex):
    return (_r(c.real), _r(c.imag))
  return c


def mk(d):
  """Normalises a monomial dict to a number or a Poly."""
  d = {m: c for m, c in d.items() if not (c == 0)}
  if not d:
    return 0
  if len(d) == 1 and () in d:
    return d[()]
  return Poly(d)


def _mulmon(m1, m2):
  if not m1:
    return m2
  if not m2:
    return m1
  m = tuple(sorted(m1 + m2))
  # indicator atoms are idempotent
  if len(m) > 1:
    out = []
    prev = None
    for a in m:
      if a == prev and _ATOMS[a].ind:
        continue
      out.append(a)
      prev = a
    if len(out) != len(m):
      m = tuple(out)
  return m


def lift(x):
  return x.d if isinstance(x, Poly) else {(): x}


class Poly:
  __slots__ = ('d', '_k')

  def __init__(self, d):
    self.d = d
    self._k = None

  # -- identity
  def key(self):
    if self._k is None:
      self._k = tuple(sorted((m, _r(c)) for m, c in self.d.items()))
    return self._k

  def deps(self):
    s = set()
    for m in self.d:
      for a in m:
        s |= _ATOMS[a].deps
    return s

  def atoms(self):
    s = set()
    for m in self.d:
      s.update(m)
    return [_ATOMS[a] for a in s]

  def __repr__(self):
    ts = []
    for m, c in sorted(self.d.items())[:6]:
      n = '*'.join(_ATOMS[a].name for a in m)
      ts.append(n if c == 1 and n else f'{_r(c)}' + (f'*{n}' if n else ''))
    return ' + '.join(ts) + (' + ...' if len(self.d) > 6 else '')

  # -- arithmetic
  def __add__(self, o):
    if not isinstance(o, Poly):
      if not _isnum(o):
        return NotImplemented
      if o == 0:
        return self
      o = {(): o}
    else:
      o = o.d
    d = dict(self.d)
    for m, c in o.items():
      s = d.get(m, 0) + c
      if s == 0 or (isinstance(s, float) and abs(s) < 1e-12 * (abs(c) + 1e-300)):
        d.pop(m, None)
      else:
        d[m] = s
    return mk(d)

  __radd__ = __add__

  def __neg__(self):
    return Poly({m: -c for m, c in self.d.items()})

  def __pos__(self):
    return self

  def __sub__(self, o):
    return self + (-o)

  def __rsub__(self, o):
    return (-self) + o

  def __mul__(self, o):
    if not isinstance(o, Poly):
      if not _isnum(o):
        return NotImplemented
      if o == 0:
        return 0
      if o == 1:
        return self
      return mk({m: c * o for m, c in self.d.items()})
    if len(self.d) * len(o.d) > 400000:
      raise Unsupported('polynomial too large', LOC[0])
    d = {}
    for m1, c1 in self.d.items():
      for m2, c2 in o.d.items():
        m = _mulmon(m1, m2)
        s = d.get(m, 0) + c1 * c2
        d[m] = s
    return mk({m: c for m, c in d.items()
               if not (isinstance(c, float) and abs(c) < 1e-14)})

  __rmul__ = __mul__

  def __truediv__(self, o):
    if not isinstance(o, Poly):
      if o == 0:
        return fn('div0', self)
      return self * (1 / o)
    return self * inv(o)

  def __rtruediv__(self, o):
    if o == 0:
      return 0
    return inv(self) * o

  def __pow__(self, n):
    if isinstance(n, float) and n == int(n):
      n = int(n)
    if isinstance(n, bool):
      n = int(n)
    if isinstance(n, int) and 0 <= n <= 12:
      r = 1
      for _ in range(n):
        r = r * self
      return r
    if isinstance(n, int) and n < 0:
      return inv(self ** (-n))
    if n == 0.5:
      return fn('sqrt', self)
    return fn('pow', self, n)

  def __rpow__(self, b):
    return fn('pow', b, self)

  def __mod__(self, o):
    return fn('mod', self, o)

  def __rmod__(self, o):
    return fn('mod', o, self)

  def __floordiv__(self, o):
    return fn('floordiv', self, o)

  def __rfloordiv__(self, o):
    return fn('floordiv', o, self)

  def __abs__(self):
    return fn('abs', self)

  # -- comparisons give indicator polynomials
  def __lt__(self, o):
    return lt(self, o)

  def __gt__(self, o):
    return lt(o, self)

  def __le__(self, o):
    return 1 - lt(o, self)

  def __ge__(self, o):
    return 1 - lt(self, o)

  def __eq__(self, o):
    return eq(self, o)

  def __ne__(self, o):
    return 1 - eq(self, o)

  __hash__ = None

  def __invert__(self):
    return 1 - self

  def __and__(self, o):
    return self * o

  __rand__ = __and__

  def __or__(self, o):
    return self + o - self * o

  __ror__ = __or__

  def __xor__(self, o):
    return self + o - 2 * (self * o)

  __rxor__ = __xor__

  def __bool__(self):
    raise Unsupported('truth value of an abstract scalar', LOC[0])

  def __float__(self):
    raise Unsupported('concrete value of an abstract scalar', LOC[0])

  def __int__(self):
    raise Unsupported('concrete value of an abstract scalar', LOC[0])

  def __index__(self):
    raise Unsupported('concrete value of an abstract scalar', LOC[0])


def same(a, b, tol=1e-7):
  """Are two abstract scalars equal value numbers?"""
  pa, pb = isinstance(a, Poly), isinstance(b, Poly)
  if not pa and not pb:
    if a == b:
      return True
    try:
      if a != a and b != b:
        return True
      return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except TypeError:
      return False
  if pa and pb and a.key() == b.key():
    return True
  da, db = lift(a), lift(b)
  for m in set(da) | set(db):
    ca, cb = da.get(m, 0), db.get(m, 0)
    if abs(ca - cb) > tol * max(1.0, abs(ca), abs(cb)):
      return False
  return True


def akey(x):
  return x.key() if isinstance(x, Poly) else _r(x)


def deps(x):
  return x.deps() if isinstance(x, Poly) else set()


# ---------------------------------------------------------------- functions
_ODD = {'tanh', 'sin', 'erf', 'sign', 'arctan', 'arcsin', 'sinh', 'inv', 'tan'}
_EVEN = {'abs', 'cos', 'cosh'}


def _argtype(p):
  """(parity, reason) of an argument of a non-linear function."""
  if not isinstance(p, Poly):
    return 1, None
  t = typ(p)
  if t[0] == 'inv':
    return t[1], None
  if t[0] == 'zero':
    return 1, None
  if t[0] == 'bad':
    return None, t[1]
  return None, f'component of a degree-{t[1]} tensor'


def _const(name, args):
  from . import elem
  return elem.const_fn(name, args)


def fn(name, *args):
  """Uninterpreted function application."""
  if not any(isinstance(a, Poly) for a in args):
    return _const(name, args)
  if FOLD[0]:
    args = tuple(fold(a) for a in args)
  d = set()
  for a in args:
    d |= deps(a)
  bad = None
  parity = 1
  if FOLD[0]:
    ps = [_argtype(a) for a in args]
    for p, why in ps:
      if why is not None and bad is None:
        bad = (f'non-linear function {name!r} applied to a non-invariant value '
               f'({why}) at {LOC[0]}')
    if bad is None and any(p == -1 for p, _ in ps):
      if len(args) == 1 and name in _ODD:
        parity = -1
      elif len(args) == 1 and name in _EVEN:
        parity = 1
      else:
        bad = (f'non-linear function {name!r} applied to a pseudoscalar '
               f'at {LOC[0]}')
  a = atom('fn', (name,) + tuple(akey(x) for x in args), (), parity, d, bad,
           False, f'{name}(..)', args)
  return Poly({(a.id,): 1})


def inv(p):
  if not isinstance(p, Poly):
    return 1 / p
  if len(p.d) == 1:
    (m, c), = p.d.items()
    r = 1 / c
    for a in m:
      at = _ATOMS[a]
      if at.kind == 'fn' and at.key[1][0] == 'inv':
        r = r * at.args[0]
      else:
        r = r * fn('inv', Poly({(a,): 1}))
    return r
  return fn('inv', p)


def _nary(name, args, neutral):
  """Commutative, associative, idempotent n-ary function (max / min)."""
  flat = {}
  consts = []

  def put(x):
    if isinstance(x, Poly):
      if len(x.d) == 1:
        (m, c), = x.d.items()
        if c == 1 and len(m) == 1:
          at = _ATOMS[m[0]]
          if at.kind == 'fn' and at.key[1][0] == name:
            for y in at.args:
              put(y)
            return
      flat[x.key()] = x
    else:
      consts.append(x)

  for a in args:
    put(fold(a) if FOLD[0] else a)
  if consts:
    c = max(consts) if name == 'max' else min(consts)
    if not flat:
      return c
    if not (c <= neutral if name == 'max' else c >= neutral):
      flat[('c', _r(c))] = c
  items = [flat[k] for k in sorted(flat, key=repr)]
  if len(items) == 1:
    return items[0]
  return fn(name, *items)


def pmax(*args):
  return _nary('max', args, -3.3e38)


def pmin(*args):
  return _nary('min', args, 3.3e38)


def _ind(op, diff):
  if FOLD[0]:
    diff = fold(diff)
    if not isinstance(diff, Poly):
      return diff < 0 if op == 'lt' else diff == 0
  bad = None
  if FOLD[0]:
    p, why = _argtype(diff)
    if why is not None:
      bad = f'comparison of a non-invariant value ({why}) at {LOC[0]}'
    elif p == -1 and op != 'eq':
      bad = f'sign test of a pseudoscalar at {LOC[0]}'
  a = atom('ind', (op, akey(diff)), (), 1, deps(diff), bad, True,
           f'[{op}]', (diff,))
  return Poly({(a.id,): 1})


def lt(a, b):
  d = a - b
  if not isinstance(d, Poly):
    if d != d:
      return False
    return bool(d < 0)
  return _ind('lt', d)


def eq(a, b):
  d = a - b
  if not isinstance(d, Poly):
    return bool(d == 0)
  n = -d
  if repr(n.key()) < repr(d.key()):
    d = n
  return _ind('eq', d)


def where(c, a, b):
  if not isinstance(c, Poly):
    return a if c else b
  if SELECT[0] and not same(a, b):
    return fn('select', c, a, b)
  if not isinstance(a, Poly) and not isinstance(b, Poly):
    if a != a or b != b or abs(a) == math.inf or abs(b) == math.inf:
      return fn('select', c, a, b)
  try:
    if not isinstance(a, Poly) and abs(a) == math.inf:
      return fn('select', c, a, b)
    if not isinstance(b, Poly) and abs(b) == math.inf:
      return fn('select', c, a, b)
  except TypeError:
    pass
  if same(a, b):
    return a
  return c * a + (1 - c) * b


# ------------------------------------------------------ representation typing
def _contract(p):
  """Closes complete sums over magnetic indices.

  Returns a list of (scalars, coef, tkeyseq, free slots, parity, deps, bad).
  """
  groups = {}
  for m, c in p.d.items():
    sl = []
    sc = []
    for a in m:
      at = _ATOMS[a]
      (sl if at.slots else sc).append(at)
    if not sl:
      groups.setdefault((tuple(a.id for a in sc), _r(c), ()), []).append(((), c, sc, ()))
      continue
    sl.sort(key=lambda a: (a.tkey, a.slots))
    sig = (tuple(a.id for a in sc), _r(c), tuple((a.tkey, tuple(s[0] for s in a.slots)) for a in sl))
    vec = tuple(s[1] for a in sl for s in a.slots)
    groups.setdefault(sig, []).append((vec, c, sc, tuple(sl)))
  out = []
  for sig, mem in groups.items():
    scal, cr, tk = sig
    c = mem[0][1]
    sc = mem[0][2]
    sl = mem[0][3]
    par = 1
    d = set()
    bad = None
    for a in list(sc) + list(sl):
      par *= a.parity
      d |= a.deps
      if a.bad and bad is None:
        bad = a.bad
    for _, _, _, s2 in mem[1:]:
      for a in s2:
        d |= a.deps
    if not sl:
      out.append((scal, c, (), (), par, d, bad, 0))
      continue
    ls = [l for _, lls in tk for l in lls]
    vecs = [v for v, _, _, _ in mem]
    n = len(ls)
    varying = [i for i in range(n) if len({v[i] for v in vecs}) > 1]
    free = [i for i in range(n) if i not in varying]
    cols = {}
    for i in varying:
      cols.setdefault(tuple(v[i] for v in vecs), []).append(i)
    ok = True
    need = 1
    for col, idx in cols.items():
      if len(idx) != 2 or ls[idx[0]] != ls[idx[1]]:
        ok = False
        break
      need *= 2 * ls[idx[0]] + 1
    if ok and (need != len(vecs) or len(set(vecs)) != len(vecs)):
      ok = False
    if not ok:
      # hand every member back individually
      why = (f'incomplete sum over magnetic components (degrees {ls}, '
             f'{len(vecs)} terms)')
      for v, c2, sc2, s2 in mem:
        out.append((scal, c2, tk, tuple((ls[i], v[i]) for i in range(n)), par, d, bad, why))
      continue
    pairs = tuple(sorted(tuple(i) for i in cols.values()))
    out.append((scal, c, (tk, pairs), tuple((ls[i], vecs[0][i]) for i in free), par, d, bad, 1))
  return out


def typ(p):
  """Representation type: ('zero',) | ('inv', parity) | ('comp', l, m, parity) |
  ('multi', slots, parity) | ('bad', reason)."""
  p = fold(p) if FOLD[0] else p
  if not isinstance(p, Poly):
    return ('zero',) if p == 0 else ('inv', 1)
  slots = None
  parity = None
  for m in p.d:
    s = []
    par = 1
    for a in m:
      at = _ATOMS[a]
      if at.bad:
        return ('bad', at.bad)
      s.extend(at.slots)
      par *= at.parity
    s = tuple(s)
    if slots is None:
      slots, parity = s, par
    else:
      if s != slots:
        for mm in p.d:
          tk = [_ATOMS[a].tkey for a in mm if _ATOMS[a].slots]
          if len(set(tk)) != len(tk):
            raise Unsupported('product of several components of one tensor cannot be typed', LOC[0])
        return ('bad', f'sum of terms with different tensor indices {slots} and {s}')
      if par != parity:
        return ('bad', 'sum of terms with different parity')
  if not slots:
    return ('inv', parity)
  if len(slots) == 1:
    return ('comp', slots[0][0], slots[0][1], parity)
  return ('multi', slots, parity)


def tensor_id(p):
  """Identity of the tensor a (folded) component belongs to."""
  p = fold(p) if FOLD[0] else p
  if not isinstance(p, Poly):
    return ('const', _r(p))
  out = []
  for m, c in p.d.items():
    out.append((_r(c), tuple(sorted(_ATOMS[a].tkey for a in m))))
  return tuple(sorted(out))


def fold(p):
  """Names well-typed polynomials by one derived atom."""
  if not isinstance(p, Poly):
    return p
  if len(p.d) == 1:
    (m, c), = p.d.items()
    if c == 1 and len(m) == 1:
      return p
    sl = [a for a in m if _ATOMS[a].slots]
    if not sl and len(m) <= 3:
      return p
  terms = _contract(p)
  slots = None
  parity = None
  for t in terms:
    if t[7] and isinstance(t[7], str):
      return p
    if t[6]:
      # keep the reason visible: one bad atom
      a = atom('bad', p.key(), (), 1, p.deps(), t[6], False, '<ill-typed>')
      return Poly({(a.id,): 1})
    if slots is None:
      slots, parity = t[3], t[4]
    elif slots != t[3] or parity != t[4]:
      return p
  if len(slots) > 2:
    # keep small products as they are (they may still be contracted later)
    return p
  if len(slots) == 2 and len(p.d) == 1:
    (m, _), = p.d.items()
    if sum(1 for x in m if _ATOMS[x].slots) > 1:
      return p
  key = tuple(sorted(((t[0], _r(t[1]), t[2]) for t in terms), key=repr))
  a = atom('drv', key, slots, parity, p.deps(), None, False, f'drv{len(_ATOMS)}')
  return Poly({(a.id,): 1})


# --------------------------------------------------- random interpretation
def _base(a, k):
  """Value of a base atom under interpretation k (deterministic)."""
  import random
  return random.Random(f'{a.kind}{a.key}{k}').uniform(-1.7, 1.9)


IND_TOL = [1e-12]      # rounding allowance of decisions in `evaluate`


def evaluate(p, k, memo, base=_base):
  """Interprets a term with every base atom replaced by a pseudo-random number."""
  if not isinstance(p, Poly):
    return float(p)
  from . import elem
  tot = 0.0
  for m, c in p.d.items():
    v = complex(c).real if not isinstance(c, complex) else c
    for i in m:
      x = memo.get(i)
      if x is None:
        a = _ATOMS[i]
        if a.kind == 'fn' and a.args and a.key[1][0] != 'deriv':
          args = [evaluate(y, k, memo, base) for y in a.args]
          try:
            x = elem.const_fn(a.key[1][0], args)
          except (ValueError, OverflowError, ZeroDivisionError):
            x = math.nan
        elif a.kind == 'ind':
          y = evaluate(a.args[0], k, memo, base)
          x = float(y < -IND_TOL[0] if a.key[1][0] == 'lt' else abs(y) <= IND_TOL[0])
        else:
          x = base(a, k)
        memo[i] = x
      if x == 0 and v == v and abs(v) != math.inf:
        v = 0.0
        break
      v = v * x
    tot += v
  return tot


class Interp:
  """Memoised random interpretations shared by many comparisons."""

  def __init__(self, n=5, base=_base):
    self.memo = [dict() for _ in range(n)]
    self.base = base

  def equiv(self, a, b, tol=1e-6):
    """Equal value numbers, or equal under every random interpretation.

    Returns True, False (some interpretation separates the terms) or None when no
    interpretation is defined.
    """
    if same(a, b):
      return True
    ok = None
    for k, m in enumerate(self.memo):
      x, y = evaluate(a, k, m, self.base), evaluate(b, k, m, self.base)
      if x != x or y != y:
        if (x != x) != (y != y):
          continue
        continue
      if abs(x) == math.inf or abs(y) == math.inf:
        if x != y:
          continue
        continue
      ok = True
      if abs(x - y) > tol * max(1.0, abs(x), abs(y)):
        return False
    return ok
