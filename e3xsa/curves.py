"""Independent closed forms of the scalar functions (double precision).

Written from the documented definitions; the analysed source is never evaluated
here.  `ref(name, kw)` returns x -> list of values; `None` marks a value on which
the definition makes no statement.
"""

import math


def _exp(x):
  return math.exp(x) if x < 709 else math.inf


def switch(x, x0=0.0, x1=1.0):
  if x <= x0:
    return 0.0
  if x >= x1:
    return 1.0
  t = (x - x0) / (x1 - x0)
  return 1.0 / (1.0 + _exp(min(700.0, math.sqrt(3) / 2 * (1 / t - 1 / (1 - t)))))


def smooth_cutoff(x, cutoff=1.0):
  t = x / cutoff
  return math.exp(max(-745.0, 1 - 1 / (1 - t * t))) if t < 1 else 0.0


def cosine_cutoff(x, cutoff=1.0):
  t = x / cutoff
  return 0.5 * math.cos(math.pi * t) + 0.5 if t < 1 else 0.0


def damping(x, gamma=1.0):
  e = math.expm1(min(700.0, gamma * x))
  return math.exp(max(-745.0, -1 / e)) if e > 1e-300 else 0.0


def reciprocal_mapping(x, kind='shifted'):
  if kind == 'shifted':
    return 1 / (x + 1)
  if kind == 'damped':
    return -math.expm1(-x) / x if x > 1e-12 else 1 - x / 2
  return 1 / (x + math.exp(-x))


def exponential_mapping(x, gamma=1.0, cuspless=False):
  if cuspless:
    # x + exp(-x) - 1 without cancellation
    u = x + math.expm1(-x) if x > 1e-4 else x * x / 2 - x ** 3 / 6
    return math.exp(max(-745.0, -gamma * u))
  return math.exp(max(-745.0, -gamma * x))


def gaussian(t, num):
  g = math.sqrt(2 * num) * (num - 1)
  return [math.exp(max(-745.0, -g * (t - (k / (num - 1) if num > 1 else 0.0)) ** 2)) for k in range(num)]


def bernstein(t, num):
  t = min(max(t, 0.0), 1.0)
  return [math.comb(num - 1, k) * t ** k * (1 - t) ** (num - 1 - k) for k in range(num)]


def chebyshev(t, num):
  t = min(max(t, -1.0), 1.0)
  return [math.cos(k * math.acos(t)) for k in range(num)]


def fourier(t, num):
  return [math.cos(math.pi * k * t) for k in range(num)]


def sinc(t, num):
  if t > 1:
    return [0.0] * num
  return [math.sin(math.pi * k * t) / (math.pi * k * t) if t > 1e-9 else 1.0 for k in range(1, num + 1)]


def rectangular(t, num):
  out = []
  for k in range(num):
    u = t * num - k
    out.append(None if abs(u) < 1e-5 * num or abs(u - 1) < 1e-5 * num else float(0 < u < 1))
  return out


def triangular(t, num):
  return [max(0.0, 1 - abs(t * num - k)) for k in range(num)]


def smooth_window(t, num):
  return [switch(t * num - k + 1) - switch(t * num - k) for k in range(num)]


BASIC = dict(gaussian=gaussian, bernstein=bernstein, fourier=fourier)
WIN = dict(rectangular_window=rectangular, triangular_window=triangular, smooth_window=smooth_window, sinc=sinc,
           basic_gaussian=gaussian, basic_bernstein=bernstein, basic_fourier=fourier)


def ref(name, kw):
  kw = dict(kw)
  one = dict(smooth_cutoff=smooth_cutoff, cosine_cutoff=cosine_cutoff, smooth_switch=switch, smooth_damping=damping,
             reciprocal_mapping=reciprocal_mapping, exponential_mapping=exponential_mapping)
  if name in one:
    f = one[name]
    return lambda x: [f(x, **kw)]
  num = kw.pop('num')
  if name in WIN or name == 'basic_chebyshev':
    l = kw.pop('limit', 1.0)
    if name == 'basic_chebyshev':
      g = lambda x: chebyshev(2 * x / l - 1, num)
    else:
      g = lambda x: WIN[name](x / l, num)
    if name in ('basic_bernstein', 'basic_chebyshev'):
      return lambda x: g(x) if x <= l else [None] * num
    return g
  fam, base = name.split('_', 1)
  wt = kw.pop('use_reciprocal_weighting', False) or kw.pop('use_exponential_weighting', False)
  kw.pop('use_exponential_weighting', None)
  m = reciprocal_mapping if fam == 'reciprocal' else exponential_mapping

  def h(x):
    y = m(x, **kw)
    v = chebyshev(2 * y - 1, num) if base == 'chebyshev' else BASIC[base](1 - y, num)
    return [a * y for a in v] if wt else v
  return h


# --------------------------------------------------------------- activations
def _softplus(x):
  return max(x, 0.0) + math.log1p(math.exp(-abs(x)))


def _sig(x):
  return 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(max(x, -745.0)) / (1 + math.exp(max(x, -745.0)))


def activation(name, kw):
  a = kw.get('alpha', 1.0)
  if name == 'relu':
    return lambda x: max(x, 0.0)
  if name == 'leaky_relu':
    s = kw.get('negative_slope', 0.01)
    return lambda x: x if x >= 0 else s * x
  if name == 'elu':
    return lambda x: x if x > 0 else a * math.expm1(x)
  if name == 'selu':
    return lambda x: 1.0507009873554805 * (x if x > 0 else 1.6732632423543772 * math.expm1(x))
  if name == 'celu':
    return lambda x: x if x > 0 else a * math.expm1(x / a)
  if name in ('silu', 'swish'):
    return lambda x: x * _sig(x)
  if name == 'gelu':
    if kw.get('approximate', True):
      return lambda x: 0.5 * x * (1 + math.tanh(math.sqrt(2 / math.pi) * (x + 0.044715 * x ** 3)))
    return lambda x: 0.5 * x * math.erfc(-x / math.sqrt(2))
  if name == 'mish':
    return lambda x: x * math.tanh(_softplus(x))
  if name == 'serf':
    return lambda x: x * math.erf(_softplus(x))
  if name == 'shifted_softplus':
    return lambda x: _softplus(x) - math.log(2)
  if name == 'hard_tanh':
    return lambda x: min(1.0, max(-1.0, x))
  if name == 'soft_sign':
    return lambda x: x / (abs(x) + 1)
  if name == 'relu6':
    return lambda x: min(max(x, 0.0), 6.0)
  if name in ('hard_silu', 'hard_swish'):
    return lambda x: x * min(max(x + 3, 0.0), 6.0) / 6
  if name == 'bent_identity':
    return lambda x: 0.5 * (math.sqrt(x * x + 1) - 1) + x
  raise KeyError(name)


def derivative(f, x, lo=-math.inf):
  """Hull of the one-sided derivatives of a closed form on x >= lo, or None."""
  h = 1e-5 * max(abs(x), 1e-2)
  m = f(x)
  sides = []
  for s in (1, -1):
    if x - 4 * h < lo and s < 0:
      continue
    sides.append((s, [f(x + s * k * h) for k in (1, 2, 3, 4)]))
  out = []
  for i in range(len(m)):
    ds = []
    ok = m[i] is not None
    for s, v in sides:
      v = [r[i] for r in v]
      if not ok or None in v:
        ok = False
        break
      d1 = s * (-3 * m[i] + 4 * v[0] - v[1]) / (2 * h)
      d2 = s * (-3 * m[i] + 4 * v[1] - v[3]) / (4 * h)
      if abs(d1 - d2) > 3e-4 * max(1.0, abs(d1)) or abs(d1) > 1e3:
        ok = False
        break
      ds.append(d1)
    out.append((min(ds), max(ds)) if ok and ds else None)
  return out


def second(f, x, lo=-math.inf):
  """Second derivative of a closed form at interior smooth points, otherwise None."""
  h = 1e-3 * min(max(abs(x), 0.1), 10.0)
  if x - 4 * h < lo:
    return [None] * len(f(x))
  v = {k: f(x + k * h) for k in range(-4, 5)}
  out = []
  for i in range(len(v[0])):
    w = {k: r[i] for k, r in v.items()}
    if None in w.values():
      out.append(None)
      continue
    d = [(w[k] - 2 * w[0] + w[-k]) / (k * h) ** 2 for k in (1, 2, 4)]
    # Richardson extrapolation from two pairs of steps: both must agree
    a, b = (4 * d[0] - d[1]) / 3, (4 * d[1] - d[2]) / 3
    # both one-sided second derivatives and the slopes must join (no breakpoint nearby)
    sides = [(2 * w[0] - 5 * w[q] + 4 * w[2 * q] - w[3 * q]) / (h * h) for q in (1, -1)]
    ok = abs(a) <= 1e3 and all(abs(q - a) <= 5e-3 * max(1.0, abs(a)) for q in sides + [b])
    out.append(a if ok else None)
  return out
