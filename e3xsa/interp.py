"""Abstract interpreter over the Python syntax tree of the analysed package.

The analysed package is never imported or executed: its modules are parsed from
the working tree and evaluated over abstract values (`arr.Arr`, `poly.Poly`,
constants).  Everything outside the package is a model from `lib`.
"""

import ast
import builtins
import operator
import os

from . import arr as A
from . import poly
from .errors import AnchorMissing, EngineError, TracerLeak, Unsupported

REPO = os.environ.get('E3X_REPO', '/repo')

_AST_CACHE = {}


def parse(path):
  t = _AST_CACHE.get(path)
  if t is None:
    with open(path, encoding='utf-8') as f:
      src = f.read()
    t = ast.parse(src, path)
    _AST_CACHE[path] = t
  return t


class _Sig(BaseException):
  pass


class ReturnSig(_Sig):

  def __init__(self, v):
    self.v = v


class BreakSig(_Sig):
  pass


class ContinueSig(_Sig):
  pass


class Env:
  __slots__ = ('vars', 'parent', 'globs', 'nonl', 'func', 'yields', 'module')

  def __init__(self, parent=None, module=None, func=None):
    self.vars = {}
    self.parent = parent
    self.globs = None
    self.nonl = None
    self.func = func
    self.yields = None
    self.module = module if module is not None else (parent.module if parent else None)


_MISSING = object()


class ModuleV:

  def __init__(self, world, name, path):
    self.world = world
    self.name = name
    self.path = path
    self.env = Env(None, self)
    self.env.vars['__name__'] = name
    self.env.vars['__file__'] = path
    self.loaded = False

  def __repr__(self):
    return f'<module {self.name}>'


class FuncV:
  """Interpreted function (a Python callable, so that models can call it)."""

  def __init__(self, interp, node, env, name, cls=None):
    self.interp = interp
    self.node = node
    self.env = env
    self.__name__ = name
    self.__qualname__ = name
    self.__doc__ = None
    self.cls = cls
    self.attrs = {}
    a = node.args
    self.defaults = [interp.eval(d, env) for d in a.defaults]
    self.kwdefaults = {k.arg: interp.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults)
                       if d is not None}
    self.is_gen = False
    if not isinstance(node, ast.Lambda):
      self.is_gen = _has_yield(node)

  @property
  def rel(self):
    return self.env.module.path if self.env.module else '?'

  def __repr__(self):
    return f'<function {self.__name__}>'

  def __call__(self, *args, **kwargs):
    return self.interp.call_func(self, args, kwargs)

  def param_names(self):
    a = self.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

  def has_param(self, n):
    return n in self.param_names() or self.node.args.kwarg is not None


_YIELD_CACHE = {}


def _has_yield(node):
  r = _YIELD_CACHE.get(node)
  if r is not None:
    return r
  r = False
  stack = list(node.body)
  while stack:
    n = stack.pop()
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      r = True
      break
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    stack.extend(ast.iter_child_nodes(n))
  _YIELD_CACHE[node] = r
  return r


class BoundV:

  def __init__(self, fn, obj):
    self.fn = fn
    self.obj = obj
    self.__name__ = getattr(fn, '__name__', '?')

  def __call__(self, *a, **k):
    return self.fn(self.obj, *a, **k)

  def __eq__(self, o):
    return isinstance(o, BoundV) and o.fn is self.fn and o.obj is self.obj

  def __hash__(self):
    return hash((id(self.fn), id(self.obj)))


class StaticV:

  def __init__(self, fn):
    self.fn = fn


class ClassMethodV:

  def __init__(self, fn):
    self.fn = fn


class PropertyV:

  def __init__(self, fn, fset=None):
    self.fn = fn
    self.fset = fset

  def setter(self, f):
    return PropertyV(self.fn, f)


class ClassV:

  def __init__(self, interp, name, bases, attrs, fields, node, module):
    self.interp = interp
    self.__name__ = name
    self.__qualname__ = name
    self.bases = bases
    self.attrs = attrs
    self.fields = fields        # own annotated fields: name -> default or MISSING
    self.node = node
    self.module = module
    self.mro = self._mro()
    self.kind = 'plain'
    self.dataclass = False
    for b in self.mro[1:]:
      if isinstance(b, ClassV):
        if b.kind != 'plain':
          self.kind = b.kind
        if b.dataclass:
          self.dataclass = True
      else:
        k = getattr(b, '__class_kind__', None)
        if k:
          self.kind = k

  def _mro(self):
    out = [self]
    seqs = [list(b.mro) if isinstance(b, ClassV) else [b] for b in self.bases]
    seqs.append(list(self.bases))
    seqs = [s for s in seqs if s]
    while seqs:
      for s in seqs:
        c = s[0]
        if not any(c in t[1:] for t in seqs):
          break
      else:
        raise TypeError('inconsistent MRO')
      out.append(c)
      seqs = [[x for x in s if x is not c] for s in seqs]
      seqs = [s for s in seqs if s]
    return out

  def __repr__(self):
    return f"<class '{self.__name__}'>"

  def lookup(self, name):
    for c in self.mro:
      if isinstance(c, ClassV):
        if name in c.attrs:
          return c.attrs[name], c
    return _MISSING, None

  def all_fields(self):
    out = {}
    for c in reversed(self.mro):
      if isinstance(c, ClassV):
        for n, v in c.fields.items():
          out[n] = v
    return out

  def getattr(self, name):
    v, _ = self.lookup(name)
    if v is _MISSING:
      if name in ('__name__', '__qualname__'):
        return self.__name__
      for c in self.mro:
        if not isinstance(c, ClassV) and hasattr(c, name):
          return getattr(c, name)
      raise AttributeError(f'type object {self.__name__!r} has no attribute {name!r}')
    if isinstance(v, StaticV):
      return v.fn
    if isinstance(v, ClassMethodV):
      return BoundV(v.fn, self)
    return v

  def __call__(self, *args, **kwargs):
    return self.interp.instantiate(self, args, kwargs)


class InstanceV:

  def __init__(self, cls):
    self.cls = cls
    self.d = {}
    self.meta = {}

  def __repr__(self):
    return f'<{self.cls.__name__} instance>'

  def __call__(self, *args, **kwargs):
    return self.cls.interp.call_instance(self, args, kwargs)

  def __iter__(self):
    if self.cls.kind == 'namedtuple':
      return iter([self.d[f] for f in self.cls.all_fields()])
    f = self.cls.interp.getattr(self, '__iter__')
    return iter(f())

  def __getitem__(self, i):
    if self.cls.kind == 'namedtuple':
      return [self.d[f] for f in self.cls.all_fields()][i]
    return self.cls.interp.getattr(self, '__getitem__')(i)

  def __len__(self):
    if self.cls.kind == 'namedtuple':
      return len(self.cls.all_fields())
    return self.cls.interp.getattr(self, '__len__')()

  def __enter__(self):
    return self.cls.interp.getattr(self, '__enter__')()

  def __exit__(self, *a):
    return self.cls.interp.getattr(self, '__exit__')(*a)


class FieldSpec:
  """dataclasses.field(...)"""

  def __init__(self, default=_MISSING, default_factory=_MISSING, init=True, **kw):
    self.default = default
    self.default_factory = default_factory
    self.init = init


_BIN = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul,
    ast.Div: operator.truediv, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
    ast.Pow: operator.pow, ast.MatMult: operator.matmul, ast.BitAnd: operator.and_,
    ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift,
    ast.RShift: operator.rshift,
}
_CMP = {
    ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
    ast.Gt: operator.gt, ast.GtE: operator.ge,
}


class SuperV:

  def __init__(self, cls, obj):
    self.cls = cls
    self.obj = obj


class Interp:

  def __init__(self, world):
    self.world = world
    self.cov = set()
    self.steps = 0
    self.max_steps = 60_000_000
    self.depth = 0
    self.stack = []          # qualified function names
    self.functions = set()
    self.call_hooks = {}     # (module, name) -> replacement callable
    self.builtins = self._builtins()
    self.branches = {}       # (path, line) -> set of outcomes

  # ------------------------------------------------------------ builtins
  def _builtins(self):
    b = {}
    for n in ('abs all any bool bytes callable chr complex dict divmod enumerate filter '
              'float format frozenset hash id int iter len list map max min next object '
              'ord pow range repr reversed round set slice sorted str sum tuple zip '
              'ArithmeticError AssertionError AttributeError BaseException Exception EOFError '
              'FileNotFoundError FloatingPointError IOError ImportError IndexError '
              'KeyError LookupError ModuleNotFoundError NameError NotImplementedError OSError OverflowError '
              'PermissionError RecursionError RuntimeError StopIteration TypeError UnicodeError '
              'UserWarning DeprecationWarning ValueError Warning ZeroDivisionError NotImplemented '
              'Ellipsis KeyboardInterrupt SystemExit FutureWarning FileExistsError IsADirectoryError TimeoutError').split():
      b[n] = getattr(builtins, n)
    b['True'], b['False'], b['None'] = True, False, None
    b['isinstance'] = self._isinstance
    b['issubclass'] = self._issubclass
    b['getattr'] = self._getattr
    b['hasattr'] = self._hasattr
    b['setattr'] = lambda o, n, v: self.setattr(o, n, v)
    b['type'] = self._type
    b['print'] = lambda *a, **k: None
    b['staticmethod'] = StaticV
    b['classmethod'] = ClassMethodV
    b['property'] = PropertyV
    b['max'] = self._max
    b['min'] = self._min
    b['open'] = self._open
    b['vars'] = lambda o: o.d if isinstance(o, InstanceV) else Unsupported('vars')
    return b

  def _open(self, *a, **k):
    f = self.world.open_hook
    if f is None:
      raise Unsupported('open()', poly.LOC[0])
    return f(*a, **k)

  def _max(self, *a, **k):
    return max(*a, **k)

  def _min(self, *a, **k):
    return min(*a, **k)

  def _isinstance(self, o, t):
    if isinstance(t, tuple):
      return any(self._isinstance(o, x) for x in t)
    if isinstance(t, ClassV):
      return isinstance(o, InstanceV) and t in o.cls.mro
    if isinstance(t, type):
      if isinstance(o, InstanceV):
        return t in o.cls.mro
      return isinstance(o, t)
    u = getattr(t, '__isinstance__', None)
    if u is not None:
      return u(o)
    raise Unsupported(f'isinstance against {t!r}', poly.LOC[0])

  def _issubclass(self, c, t):
    if isinstance(c, ClassV):
      return t in c.mro
    return issubclass(c, t)

  def _getattr(self, o, n, *d):
    try:
      return self.getattr(o, n)
    except AttributeError:
      if d:
        return d[0]
      raise

  def _hasattr(self, o, n):
    try:
      self.getattr(o, n)
      return True
    except AttributeError:
      return False

  def _type(self, o, *rest):
    if rest:
      raise Unsupported('dynamic type()')
    if isinstance(o, InstanceV):
      return o.cls
    return type(o)

  # ------------------------------------------------------------ helpers
  def loc(self, node, env):
    m = env.module
    path = m.path if m else '?'
    if path.startswith(REPO + '/'):
      path = path[len(REPO) + 1:]
    f = env.func
    return (path, getattr(node, 'lineno', 0), f or '<module>')

  def lookup(self, name, env):
    e = env
    while e is not None:
      v = e.vars.get(name, _MISSING)
      if v is not _MISSING:
        return v
      e = e.parent
    v = self.builtins.get(name, _MISSING)
    if v is not _MISSING:
      return v
    raise NameError(f"name '{name}' is not defined")

  def assign_name(self, name, v, env):
    if env.globs and name in env.globs:
      env.module.env.vars[name] = v
      self.world.on_global_write(env.module, name, v)
      return
    if env.nonl and name in env.nonl:
      e = env.parent
      while e is not None:
        if name in e.vars:
          e.vars[name] = v
          return
        e = e.parent
    env.vars[name] = v

  # ------------------------------------------------------------ attributes
  def getattr(self, o, name):
    if isinstance(o, InstanceV):
      return self.inst_getattr(o, name)
    if isinstance(o, ClassV):
      v = o.getattr(name)
      self.world.on_attr_read(o, name, v)
      return v
    if isinstance(o, ModuleV):
      o.world.load(o)
      v = o.env.vars.get(name, _MISSING)
      if v is _MISSING:
        sub = self.world.find_submodule(o, name)
        if sub is not None:
          return sub
        raise AttributeError(f'module {o.name!r} has no attribute {name!r}')
      return v
    if isinstance(o, SuperV):
      mro = o.obj.cls.mro if isinstance(o.obj, InstanceV) else o.obj.mro
      i = mro.index(o.cls)
      for c in mro[i + 1:]:
        if isinstance(c, ClassV):
          if name in c.attrs:
            v = c.attrs[name]
            return self.bind(v, o.obj)
        else:
          f = getattr(c, name, None)
          if f is not None and name not in ('__init__', '__call__'):
            return BoundV(f, o.obj)
          if name in ('__init__', '__post_init__'):
            return lambda *a, **k: None
      raise AttributeError(f"'super' object has no attribute {name!r}")
    if isinstance(o, FuncV):
      if name in o.attrs:
        return o.attrs[name]
      if name in ('__name__', '__qualname__', '__doc__'):
        return getattr(o, name)
      raise AttributeError(f'function has no attribute {name!r}')
    if name.startswith('__') and name not in (
        '__name__', '__class__', '__doc__', '__len__', '__file__', '__version__', '__init__', '__getitem__'):
      raise Unsupported(f'dunder attribute {name}', poly.LOC[0])
    return getattr(o, name)

  def bind(self, v, obj):
    if isinstance(v, StaticV):
      return v.fn
    if isinstance(v, ClassMethodV):
      return BoundV(v.fn, obj.cls if isinstance(obj, InstanceV) else obj)
    if isinstance(v, PropertyV):
      return v.fn(obj)
    if isinstance(v, FuncV) or getattr(v, '__bindable__', False):
      return BoundV(v, obj)
    return v

  def inst_getattr(self, o, name):
    if name in o.d:
      return o.d[name]
    v, c = o.cls.lookup(name)
    if v is not _MISSING:
      return self.bind(v, o)
    for c in o.cls.mro:
      if not isinstance(c, ClassV):
        f = getattr(c, name, _MISSING)
        if f is not _MISSING:
          return BoundV(f, o) if callable(f) else f
    if name == '__class__':
      return o.cls
    if name == '__dict__':
      return o.d
    if o.cls.kind == 'flax' and not o.meta.get('setup') and 'setup' in _all_attrs(o.cls):
      self.flax_setup(o)
      if name in o.d:
        return o.d[name]
    raise AttributeError(f'{o.cls.__name__!r} object has no attribute {name!r}')

  def setattr(self, o, name, v):
    if isinstance(o, InstanceV):
      p, _ = o.cls.lookup(name)
      if isinstance(p, PropertyV) and p.fset is not None:
        p.fset(o, v)
        return
      o.d[name] = v
      return
    if isinstance(o, ClassV):
      o.attrs[name] = v
      self.world.on_attr_write(o, name, v)
      return
    if isinstance(o, ModuleV):
      o.env.vars[name] = v
      self.world.on_global_write(o, name, v)
      return
    if isinstance(o, FuncV):
      o.attrs[name] = v
      return
    f = getattr(o, '__setattr_model__', None)
    if f is not None:
      f(name, v)
      return
    raise Unsupported(f'attribute assignment on {type(o).__name__}', poly.LOC[0])

  # ------------------------------------------------------------ classes
  def instantiate(self, cls, args, kwargs):
    if cls.kind == 'typeddict':
      d = {}
      if args:
        d.update(args[0])
      d.update(kwargs)
      return d
    if cls.kind == 'exception':
      return cls.native(*args, **kwargs)
    o = InstanceV(cls)
    init, _ = cls.lookup('__init__')
    if cls.kind in ('flax', 'namedtuple') or (cls.dataclass and init is _MISSING):
      fields = cls.all_fields()
      if cls.kind == 'flax':
        o.meta['stack'] = None
        nm = kwargs.pop('name', None)
        kwargs.pop('parent', None)
        o.meta['name'] = nm
        o.d['name'] = nm
        self.world.flax_register(o)
      names = [n for n, s in fields.items() if not (isinstance(s, FieldSpec) and not s.init)]
      if len(args) > len(names):
        raise TypeError(f'{cls.__name__}() takes {len(names)} positional arguments')
      given = dict(zip(names, args))
      for k, v in kwargs.items():
        if k not in names:
          raise TypeError(f'{cls.__name__}() got an unexpected keyword argument {k!r}')
        if k in given:
          raise TypeError(f'{cls.__name__}() got multiple values for argument {k!r}')
        given[k] = v
      o.meta['given'] = dict(given)
      for n, s in fields.items():
        if n in given:
          o.d[n] = given[n]
        elif isinstance(s, FieldSpec):
          if s.default_factory is not _MISSING:
            o.d[n] = s.default_factory()
          elif s.default is not _MISSING:
            o.d[n] = s.default
          elif s.init:
            raise TypeError(f'{cls.__name__}() missing required argument {n!r}')
        elif s is not _MISSING:
          o.d[n] = s
        else:
          raise TypeError(f'{cls.__name__}() missing required argument {n!r}')
      post, _ = cls.lookup('__post_init__')
      if post is not _MISSING:
        self.bind(post, o)()
      return o
    if init is not _MISSING:
      self.bind(init, o)(*args, **kwargs)
    elif args or kwargs:
      raise TypeError(f'{cls.__name__}() takes no arguments')
    return o

  def flax_setup(self, o):
    o.meta['setup'] = True
    s, _ = o.cls.lookup('setup')
    if s is not _MISSING:
      self.world.flax_push(o)
      try:
        self.bind(s, o)()
      finally:
        self.world.flax_pop()

  def call_instance(self, o, args, kwargs):
    f, _ = o.cls.lookup('__call__')
    if f is _MISSING:
      raise TypeError(f'{o.cls.__name__!r} object is not callable')
    if o.cls.kind == 'flax':
      if not o.meta.get('setup'):
        self.flax_setup(o)
      self.world.flax_push(o)
      try:
        return self.bind(f, o)(*args, **kwargs)
      finally:
        self.world.flax_pop()
    return self.bind(f, o)(*args, **kwargs)

  # ------------------------------------------------------------ calls
  def call_func(self, f, args, kwargs):
    hook = self.call_hooks.get((f.env.module.name if f.env.module else '', f.__name__))
    if hook is not None:
      r = hook(f, args, kwargs)
      if r is not NotImplemented:
        return r
    node = f.node
    a = node.args
    env = Env(f.env, f.env.module, f.__qualname__)
    v = env.vars
    pos = a.posonlyargs + a.args
    npos = len(pos)
    if len(args) > npos:
      if a.vararg is None:
        raise TypeError(f'{f.__name__}() takes {npos} positional arguments but {len(args)} were given')
      v[a.vararg.arg] = tuple(args[npos:])
      args = args[:npos]
    elif a.vararg is not None:
      v[a.vararg.arg] = ()
    for p, x in zip(pos, args):
      v[p.arg] = x
    names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
    extra = {}
    for k, x in kwargs.items():
      if k in names:
        if k in v:
          raise TypeError(f'{f.__name__}() got multiple values for argument {k!r}')
        v[k] = x
      elif a.kwarg is not None:
        extra[k] = x
      else:
        raise TypeError(f'{f.__name__}() got an unexpected keyword argument {k!r}')
    if a.kwarg is not None:
      v[a.kwarg.arg] = extra
    nd = len(f.defaults)
    for i, p in enumerate(pos):
      if p.arg not in v:
        j = i - (npos - nd)
        if j >= 0:
          v[p.arg] = f.defaults[j]
        else:
          raise TypeError(f'{f.__name__}() missing required argument {p.arg!r}')
    for p in a.kwonlyargs:
      if p.arg not in v:
        if p.arg in f.kwdefaults:
          v[p.arg] = f.kwdefaults[p.arg]
        else:
          raise TypeError(f'{f.__name__}() missing required keyword-only argument {p.arg!r}')
    self.depth += 1
    if self.depth > 200:
      self.depth = 0
      raise Unsupported('recursion limit of the abstract interpreter')
    saved = poly.LOC[0]
    self.stack.append(f.__qualname__)
    self.functions.add((f.env.module.path if f.env.module else '?', f.__qualname__))
    if f.cls is not None:
      env.vars['__class__'] = f.cls
    try:
      if isinstance(node, ast.Lambda):
        return self.eval(node.body, env)
      if f.is_gen:
        env.yields = []
      try:
        self.exec_block(node.body, env)
        r = None
      except ReturnSig as s:
        r = s.v
      if f.is_gen:
        return iter(env.yields)
      return r
    finally:
      self.depth -= 1
      self.stack.pop()
      poly.LOC[0] = saved

  def call(self, f, args, kwargs, node, env):
    if isinstance(f, (FuncV, BoundV, ClassV, InstanceV)):
      return f(*args, **kwargs)
    if f is None:
      raise TypeError("'NoneType' object is not callable")
    if not callable(f):
      raise TypeError(f'{type(f).__name__!r} object is not callable')
    return f(*args, **kwargs)

  # ------------------------------------------------------------ statements
  def exec_block(self, body, env):
    for s in body:
      self.exec(s, env)

  def exec(self, s, env):
    self.steps += 1
    if self.steps > self.max_steps:
      raise Unsupported('step limit of the abstract interpreter')
    l = self.loc(s, env)
    poly.LOC[0] = l
    self.cov.add((l[0], l[1]))
    m = getattr(self, 'x_' + type(s).__name__, None)
    if m is None:
      raise Unsupported(f'statement {type(s).__name__}', l)
    try:
      m(s, env)
    except Exception as e:
      if not hasattr(e, 'e3x_loc'):
        try:
          e.e3x_loc = l
          e.e3x_stack = tuple(self.stack)
        except AttributeError:
          pass
      raise

  def x_Expr(self, s, env):
    if isinstance(s.value, ast.Constant):
      return
    self.eval(s.value, env)

  def x_Pass(self, s, env):
    pass

  def x_Return(self, s, env):
    raise ReturnSig(self.eval(s.value, env) if s.value is not None else None)

  def x_Break(self, s, env):
    raise BreakSig()

  def x_Continue(self, s, env):
    raise ContinueSig()

  def x_Global(self, s, env):
    env.globs = (env.globs or set()) | set(s.names)

  def x_Nonlocal(self, s, env):
    env.nonl = (env.nonl or set()) | set(s.names)

  def x_Assign(self, s, env):
    v = self.eval(s.value, env)
    for t in s.targets:
      self.assign(t, v, env)

  def x_AnnAssign(self, s, env):
    if s.value is not None:
      self.assign(s.target, self.eval(s.value, env), env)

  def x_AugAssign(self, s, env):
    t = s.target
    if isinstance(t, ast.Name):
      cur = self.lookup(t.id, env)
      v = self.eval(s.value, env)
      r = self.binop(s.op, cur, v, True)
      self.assign_name(t.id, r, env)
    elif isinstance(t, ast.Attribute):
      o = self.eval(t.value, env)
      cur = self.getattr(o, t.attr)
      v = self.eval(s.value, env)
      self.setattr(o, t.attr, self.binop(s.op, cur, v, True))
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, env)
      i = self.eval_index(t.slice, env)
      cur = self.subscript(o, i)
      v = self.eval(s.value, env)
      self.store_subscript(o, i, self.binop(s.op, cur, v, True))
    else:
      raise Unsupported('augmented assignment target')

  def binop(self, op, a, b, inplace=False):
    if inplace and isinstance(a, list) and isinstance(op, ast.Add):
      a += list(b)
      return a
    if inplace and isinstance(a, (set, dict)) and isinstance(op, ast.BitOr):
      a |= b
      return a
    if inplace and isinstance(a, A.Arr) and a.np_ and a.a.ndim > 0:
      # numpy in-place operator mutates the existing array
      r = _BIN[type(op)](a, b)
      if isinstance(r, A.Arr) and r.shape == a.shape:
        a.a[...] = r.a
        A.on_write(a)
        return a
      return r
    return _BIN[type(op)](a, b)

  def assign(self, t, v, env):
    if isinstance(t, ast.Name):
      self.assign_name(t.id, v, env)
    elif isinstance(t, (ast.Tuple, ast.List)):
      vals = list(v)
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      if star:
        i = star[0]
        n = len(t.elts) - 1
        if len(vals) < n:
          raise ValueError('not enough values to unpack')
        after = len(t.elts) - i - 1
        for e, x in zip(t.elts[:i], vals[:i]):
          self.assign(e, x, env)
        self.assign(t.elts[i].value, vals[i:len(vals) - after], env)
        for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
          self.assign(e, x, env)
      else:
        if len(vals) != len(t.elts):
          raise ValueError(f'cannot unpack {len(vals)} values into {len(t.elts)} targets')
        for e, x in zip(t.elts, vals):
          self.assign(e, x, env)
    elif isinstance(t, ast.Attribute):
      self.setattr(self.eval(t.value, env), t.attr, v)
    elif isinstance(t, ast.Subscript):
      o = self.eval(t.value, env)
      self.store_subscript(o, self.eval_index(t.slice, env), v)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, list(v), env)
    else:
      raise Unsupported(f'assignment target {type(t).__name__}')

  def store_subscript(self, o, i, v):
    if isinstance(o, InstanceV):
      self.getattr(o, '__setitem__')(i, v)
      return
    o[i] = v

  def x_Delete(self, s, env):
    for t in s.targets:
      if isinstance(t, ast.Name):
        env.vars.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        o = self.eval(t.value, env)
        del o[self.eval_index(t.slice, env)]
      else:
        raise Unsupported('del target')

  def truth(self, v, node=None, env=None):
    if isinstance(v, InstanceV):
      f, _ = v.cls.lookup('__bool__')
      if f is not _MISSING:
        return bool(self.bind(f, v)())
      return True
    if isinstance(v, (FuncV, ClassV, BoundV, ModuleV)):
      return True
    return bool(v)

  def x_If(self, s, env):
    l = self.loc(s, env)
    v = self.truth(self.eval(s.test, env))
    self.branches.setdefault((l[0], l[1]), set()).add(v)
    self.exec_block(s.body if v else s.orelse, env)

  def x_While(self, s, env):
    n = 0
    while True:
      n += 1
      if n > 100000:
        raise Unsupported('loop bound of the abstract interpreter')
      if not self.truth(self.eval(s.test, env)):
        self.exec_block(s.orelse, env)
        return
      try:
        self.exec_block(s.body, env)
      except BreakSig:
        return
      except ContinueSig:
        continue

  def x_For(self, s, env):
    it = self.eval(s.iter, env)
    for x in self.iterate(it):
      self.assign(s.target, x, env)
      try:
        self.exec_block(s.body, env)
      except BreakSig:
        return
      except ContinueSig:
        continue
    self.exec_block(s.orelse, env)

  def iterate(self, it):
    return iter(it)

  def x_With(self, s, env):
    self._with(s.items, s.body, env)

  def _with(self, items, body, env):
    if not items:
      self.exec_block(body, env)
      return
    it = items[0]
    c = self.eval(it.context_expr, env)
    v = c.__enter__()
    if it.optional_vars is not None:
      self.assign(it.optional_vars, v, env)
    try:
      self._with(items[1:], body, env)
    except _Sig:
      c.__exit__(None, None, None)
      raise
    except EngineError:
      raise
    except BaseException as e:
      if not c.__exit__(type(e), e, None):
        raise
    else:
      c.__exit__(None, None, None)

  def x_Raise(self, s, env):
    if s.exc is None:
      cur = self.lookup('__current_exception__', env)
      raise cur
    e = self.eval(s.exc, env)
    if isinstance(e, type) and issubclass(e, BaseException):
      e = e()
    if isinstance(e, ClassV):
      e = e()
    if not isinstance(e, BaseException):
      raise TypeError('exceptions must derive from BaseException')
    e.e3x_explicit = True
    e.e3x_loc = self.loc(s, env)
    e.e3x_stack = tuple(self.stack)
    if s.cause is not None:
      raise e from self.eval(s.cause, env)
    raise e

  def x_Assert(self, s, env):
    if not self.truth(self.eval(s.test, env)):
      e = AssertionError(self.eval(s.msg, env) if s.msg is not None else '')
      e.e3x_explicit = True
      e.e3x_loc = self.loc(s, env)
      raise e

  def x_Try(self, s, env):
    try:
      try:
        self.exec_block(s.body, env)
      except _Sig:
        raise
      except EngineError:
        raise
      except BaseException as e:
        for h in s.handlers:
          if h.type is None:
            ok = True
          else:
            t = self.eval(h.type, env)
            t = t if isinstance(t, tuple) else (t,)
            ts = []
            for x in t:
              if isinstance(x, ClassV) and hasattr(x, 'native'):
                x = x.native
              if not isinstance(x, type):
                raise Unsupported(f'except clause with {x!r}', poly.LOC[0])
              ts.append(x)
            ok = isinstance(e, tuple(ts))
          if ok:
            self.world.on_caught(e, self.loc(h, env))
            saved = env.vars.get('__current_exception__', _MISSING)
            env.vars['__current_exception__'] = e
            if h.name:
              env.vars[h.name] = e
            try:
              self.exec_block(h.body, env)
            finally:
              if h.name:
                env.vars.pop(h.name, None)
              if saved is _MISSING:
                env.vars.pop('__current_exception__', None)
              else:
                env.vars['__current_exception__'] = saved
            break
        else:
          raise
      else:
        self.exec_block(s.orelse, env)
    finally:
      self.exec_block(s.finalbody, env)

  def x_FunctionDef(self, s, env):
    qn = s.name if env.func in (None, '<module>') else f'{env.func}.{s.name}'
    f = FuncV(self, s, env, s.name)
    f.__qualname__ = qn
    v = f
    for d in reversed(s.decorator_list):
      v = self.eval(d, env)(v)
    self.assign_name(s.name, v, env)

  def x_ClassDef(self, s, env):
    bases = [self.eval(b, env) for b in s.bases]
    bases = [b for b in bases if b is not object]
    for b in bases:
      if isinstance(b, type) and issubclass(b, BaseException):
        native = type(s.name, (b,), {})
        env.vars[s.name] = native
        return
    cenv = Env(env, env.module, env.func)
    fields = {}
    defs = []
    for st in s.body:
      if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        ann = ast.dump(st.annotation)
        if 'ClassVar' in ann:
          if st.value is not None:
            cenv.vars[st.target.id] = self.eval(st.value, cenv)
          continue
        if st.value is not None:
          poly.LOC[0] = self.loc(st, env)
          val = self.eval(st.value, cenv)
          fields[st.target.id] = val
          if not isinstance(val, FieldSpec):
            cenv.vars[st.target.id] = val
        else:
          fields[st.target.id] = _MISSING
      elif isinstance(st, ast.FunctionDef):
        # methods close over the enclosing scope, not over the class body
        f = FuncV.__new__(FuncV)
        FuncV.__init__(f, self, st, cenv, st.name)
        f.env = env
        f.__qualname__ = f'{s.name}.{st.name}'
        defs.append(f)
        v = f
        for d in reversed(st.decorator_list):
          v = self.eval(d, cenv)(v)
        cenv.vars[st.name] = v
      else:
        self.exec(st, cenv)
    c = ClassV(self, s.name, bases, cenv.vars, fields, s, env.module)
    for f in defs:
      f.cls = c
    v = c
    for d in reversed(s.decorator_list):
      v = self.eval(d, env)(v)
    env.vars[s.name] = v

  def x_Import(self, s, env):
    for a in s.names:
      m = self.world.import_(a.name)
      if a.asname:
        env.vars[a.asname] = m
      else:
        top = a.name.split('.')[0]
        env.vars[top] = self.world.import_(top)

  def x_ImportFrom(self, s, env):
    name = s.module or ''
    if s.level:
      base = env.module.name.split('.')
      is_pkg = env.module.path.endswith('__init__.py')
      base = base[:len(base) - (s.level - (1 if is_pkg else 0))]
      name = '.'.join(base + ([name] if name else []))
    if name == '__future__':
      return
    m = self.world.import_(name)
    for a in s.names:
      if a.name == '*':
        if isinstance(m, ModuleV):
          for k, v in m.env.vars.items():
            if not k.startswith('_'):
              env.vars[k] = v
          continue
        raise Unsupported('star import of a library')
      try:
        v = self.getattr(m, a.name)
      except Unsupported:
        v = Unmodelled(f'{name}.{a.name}')
      except AttributeError as e:
        sub = self.world.try_import(f'{name}.{a.name}')
        if sub is None:
          raise ImportError(f'cannot import name {a.name!r} from {name!r}') from e
        v = sub
      env.vars[a.asname or a.name] = v

  def x_Match(self, s, env):
    subj = self.eval(s.subject, env)
    for c in s.cases:
      if self.match(c.pattern, subj, env) and (c.guard is None or self.truth(self.eval(c.guard, env))):
        self.exec_block(c.body, env)
        return

  def match(self, p, v, env):
    if isinstance(p, ast.MatchValue):
      return self.truth(v == self.eval(p.value, env))
    if isinstance(p, ast.MatchSingleton):
      return v is p.value
    if isinstance(p, ast.MatchOr):
      return any(self.match(q, v, env) for q in p.patterns)
    if isinstance(p, ast.MatchAs):
      if p.pattern is not None and not self.match(p.pattern, v, env):
        return False
      if p.name:
        self.assign_name(p.name, v, env)
      return True
    if isinstance(p, ast.MatchSequence):
      if not isinstance(v, (list, tuple)):
        return False
      if any(isinstance(q, ast.MatchStar) for q in p.patterns):
        raise Unsupported('match star pattern')
      return len(v) == len(p.patterns) and all(self.match(q, x, env) for q, x in zip(p.patterns, v))
    raise Unsupported(f'pattern {type(p).__name__}')

  # ------------------------------------------------------------ expressions
  def eval(self, e, env):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      raise Unsupported(f'expression {type(e).__name__}', poly.LOC[0])
    return m(e, env)

  def e_Constant(self, e, env):
    return e.value

  def e_Name(self, e, env):
    return self.lookup(e.id, env)

  def e_Attribute(self, e, env):
    return self.getattr(self.eval(e.value, env), e.attr)

  def e_Tuple(self, e, env):
    return tuple(self.seq(e.elts, env))

  def e_List(self, e, env):
    return self.seq(e.elts, env)

  def e_Set(self, e, env):
    return set(self.seq(e.elts, env))

  def seq(self, elts, env):
    out = []
    for x in elts:
      if isinstance(x, ast.Starred):
        out.extend(self.iterate(self.eval(x.value, env)))
      else:
        out.append(self.eval(x, env))
    return out

  def e_Dict(self, e, env):
    d = {}
    for k, v in zip(e.keys, e.values):
      if k is None:
        d.update(self.eval(v, env))
      else:
        d[self.eval(k, env)] = self.eval(v, env)
    return d

  def e_BinOp(self, e, env):
    a = self.eval(e.left, env)
    b = self.eval(e.right, env)
    if isinstance(e.op, ast.Mod) and isinstance(a, str):
      return a
    return _BIN[type(e.op)](a, b)

  def e_UnaryOp(self, e, env):
    v = self.eval(e.operand, env)
    if isinstance(e.op, ast.Not):
      return not self.truth(v)
    if isinstance(e.op, ast.USub):
      return -v
    if isinstance(e.op, ast.UAdd):
      return +v
    return ~v

  def e_BoolOp(self, e, env):
    v = None
    for x in e.values:
      v = self.eval(x, env)
      if x is e.values[-1]:
        return v
      t = self.truth(v)
      if isinstance(e.op, ast.And) and not t:
        return v
      if isinstance(e.op, ast.Or) and t:
        return v
    return v

  def e_Compare(self, e, env):
    left = self.eval(e.left, env)
    res = True
    for op, c in zip(e.ops, e.comparators):
      right = self.eval(c, env)
      if isinstance(op, ast.Is):
        res = left is right
      elif isinstance(op, ast.IsNot):
        res = left is not right
      elif isinstance(op, ast.In):
        res = self.contains(right, left)
      elif isinstance(op, ast.NotIn):
        res = not self.contains(right, left)
      else:
        res = self.compare(op, left, right)
      if c is not e.comparators[-1]:
        if not self.truth(res):
          return res
      left = right
    return res

  def compare(self, op, a, b):
    return _CMP[type(op)](a, b)

  def contains(self, c, x):
    if isinstance(c, InstanceV):
      return self.truth(self.getattr(c, '__contains__')(x))
    if isinstance(c, (list, tuple)):
      for y in c:
        if y is x:
          return True
        r = y == x
        if self.truth(r):
          return True
      return False
    return x in c

  def e_IfExp(self, e, env):
    l = self.loc(e, env)
    v = self.truth(self.eval(e.test, env))
    self.branches.setdefault((l[0], l[1]), set()).add(v)
    return self.eval(e.body if v else e.orelse, env)

  def e_Lambda(self, e, env):
    f = FuncV(self, e, env, '<lambda>')
    f.__qualname__ = (env.func + '.' if env.func else '') + '<lambda>'
    return f

  def e_NamedExpr(self, e, env):
    v = self.eval(e.value, env)
    self.assign_name(e.target.id, v, env)
    return v

  def e_Starred(self, e, env):
    raise Unsupported('starred expression')

  def e_JoinedStr(self, e, env):
    out = []
    for v in e.values:
      if isinstance(v, ast.Constant):
        out.append(str(v.value))
      else:
        x = self.eval(v.value, env)
        try:
          if v.conversion == 114:
            s = repr(x)
          else:
            spec = self.eval(v.format_spec, env) if v.format_spec is not None else ''
            s = format(x, spec)
        except (TypeError, ValueError):
          s = '?'
        out.append(s)
    return ''.join(out)

  def e_FormattedValue(self, e, env):
    return str(self.eval(e.value, env))

  def eval_index(self, s, env):
    return self.eval(s, env)

  def e_Slice(self, e, env):
    return slice(self.eval(e.lower, env) if e.lower else None,
                 self.eval(e.upper, env) if e.upper else None,
                 self.eval(e.step, env) if e.step else None)

  def e_Subscript(self, e, env):
    o = self.eval(e.value, env)
    i = self.eval_index(e.slice, env)
    return self.subscript(o, i)

  def subscript(self, o, i):
    if isinstance(o, ClassV):
      return o
    if isinstance(o, type):
      return o
    return o[i]

  def e_Call(self, e, env):
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
      cls = self.lookup('__class__', env)
      fe = env
      while '__class__' not in fe.vars:
        fe = fe.parent
      first = next(iter(fe.vars.values()))
      # first parameter of the method
      return SuperV(cls, self._first_arg(fe))
    f = self.eval(e.func, env)
    args = self.seq(e.args, env)
    kwargs = {}
    for k in e.keywords:
      if k.arg is None:
        kwargs.update(self.eval(k.value, env))
      else:
        kwargs[k.arg] = self.eval(k.value, env)
    l = self.loc(e, env)
    poly.LOC[0] = l
    r = self.call(f, args, kwargs, e, env)
    poly.LOC[0] = l
    return r

  def _first_arg(self, env):
    for v in env.vars.values():
      if isinstance(v, (InstanceV, ClassV)) and v is not env.vars.get('__class__'):
        return v
    raise Unsupported('super() outside a method')

  # comprehensions
  def comp(self, gens, env, emit):
    def rec(i, en):
      if i == len(gens):
        emit(en)
        return
      g = gens[i]
      for x in self.iterate(self.eval(g.iter, en)):
        self.assign(g.target, x, en)
        if all(self.truth(self.eval(c, en)) for c in g.ifs):
          rec(i + 1, en)
    e2 = Env(env, env.module, env.func)
    rec(0, e2)

  def e_ListComp(self, e, env):
    out = []
    self.comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)))
    return out

  def e_SetComp(self, e, env):
    out = set()
    self.comp(e.generators, env, lambda en: out.add(self.eval(e.elt, en)))
    return out

  def e_GeneratorExp(self, e, env):
    out = []
    self.comp(e.generators, env, lambda en: out.append(self.eval(e.elt, en)))
    return iter(out)

  def e_DictComp(self, e, env):
    out = {}
    self.comp(e.generators, env,
              lambda en: out.__setitem__(self.eval(e.key, en), self.eval(e.value, en)))
    return out

  def _yield_env(self, env):
    e = env
    while e is not None and e.yields is None:
      e = e.parent
    if e is None:
      raise Unsupported('yield outside function')
    return e

  def e_Yield(self, e, env):
    y = self._yield_env(env).yields
    y.append(self.eval(e.value, env) if e.value is not None else None)
    if len(y) > 200000:
      raise Unsupported('unbounded generator')

  def e_YieldFrom(self, e, env):
    self._yield_env(env).yields.extend(self.iterate(self.eval(e.value, env)))

  def e_Await(self, e, env):
    raise Unsupported('await')


def _all_attrs(cls):
  s = set()
  for c in cls.mro:
    if isinstance(c, ClassV):
      s |= set(c.attrs)
  return s


class Unmodelled:
  """Library member without a model: any use is UNSUPPORTED."""

  def __init__(self, name):
    self.__dict__['_name'] = name

  def _no(self, *a, **k):
    raise Unsupported(f'library member {self._name} has no model', poly.LOC[0])

  __call__ = __getitem__ = __iter__ = __enter__ = __add__ = __mul__ = _no

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    self._no()


class UnmodelledNS:

  def __init__(self, name):
    self.__dict__['_name'] = name

  def __getattr__(self, k):
    if k.startswith('__'):
      raise AttributeError(k)
    raise Unsupported(f'library member {self._name}.{k} has no model', poly.LOC[0])


_PURE = {'zlib', 'pickle', 'string', 're', 'numbers', 'fractions', 'textwrap', 'types', 'bisect', 'heapq', 'struct', 'keyword', 'cmath', 'lzma', 'binascii', 'errno'}


def lib_native(name):
  if name in _PURE:
    import importlib
    return importlib.import_module(name)
  return None


class World:
  """One abstract instance of the analysed package."""

  def __init__(self, lib_factory=None):
    from . import lib
    self.interp = Interp(self)
    self.modules = {}
    self.open_hook = None
    self.attr_write_hook = None
    self.attr_read_hook = None
    self.global_write_hook = None
    self.caught_hook = None
    self.flax_stack = []
    self.flax_counts = [{}]
    self.lib = lib.make(self)

  # hooks
  def on_global_write(self, module, name, v):
    if self.global_write_hook:
      self.global_write_hook(module, name, v)

  def on_attr_write(self, cls, name, v):
    if self.attr_write_hook:
      self.attr_write_hook(cls, name, v)

  def on_attr_read(self, cls, name, v):
    if self.attr_read_hook:
      self.attr_read_hook(cls, name, v)

  def on_caught(self, e, loc):
    if self.caught_hook:
      self.caught_hook(e, loc)

  # flax scopes
  def flax_register(self, o):
    parent = self.flax_stack[-1] if self.flax_stack else None
    o.meta['parent'] = parent
    if parent is not None:
      cnt = parent.meta.setdefault('counts', {})
      if o.meta['name'] is None:
        c = cnt.get(o.cls.__name__ if isinstance(o, InstanceV) else type(o).__name__, 0)
        nm = o.cls.__name__ if isinstance(o, InstanceV) else type(o).__name__
        cnt[nm] = c + 1
        o.meta['name'] = f'{nm}_{c}'

  def flax_push(self, o):
    self.flax_stack.append(o)

  def flax_pop(self):
    self.flax_stack.pop()

  def flax_path(self, o):
    p = []
    while o is not None:
      n = o.meta.get('name')
      if n and o.meta.get('parent') is not None:
        p.append(n)
      o = o.meta.get('parent')
    return '/'.join(reversed(p))

  # modules
  def _path(self, name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isdir(p):
      return os.path.join(p, '__init__.py')
    if os.path.exists(p + '.py'):
      return p + '.py'
    return None

  def module(self, name):
    m = self.modules.get(name)
    if m is None:
      path = self._path(name)
      if path is None:
        return None
      m = ModuleV(self, name, path)
      self.modules[name] = m
    return m

  def load(self, m):
    if m.loaded:
      return m
    m.loaded = True
    if '.' in m.name:
      self.load(self.module(m.name.rsplit('.', 1)[0]))
    tree = parse(m.path)
    saved = poly.LOC[0]
    self.interp.exec_block(tree.body, m.env)
    poly.LOC[0] = saved
    if '.' in m.name:
      p, n = m.name.rsplit('.', 1)
      pm = self.module(p)
      pm.env.vars.setdefault(n, m)
    return m

  def find_submodule(self, m, name):
    s = self.modules.get(f'{m.name}.{name}')
    if s is not None and s.loaded:
      return s
    return None

  def try_import(self, name):
    if name.split('.')[0] == 'e3x':
      m = self.module(name)
      return self.load(m) if m is not None else None
    return self.lib.get(name)

  def import_(self, name):
    m = self.try_import(name)
    if m is None:
      if name.split('.')[0] == 'e3x':
        raise ImportError(f'No module named {name!r}')
      m = self.lib[name] = lib_native(name) or UnmodelledNS(name)
    return m

  def get(self, dotted):
    """Resolves a public path such as 'e3x.nn.Dense'."""
    parts = dotted.split('.')
    o = self.import_(parts[0])
    for p in parts[1:]:
      try:
        o = self.interp.getattr(o, p)
      except AttributeError:
        if isinstance(o, ModuleV):
          s = self.try_import(f'{o.name}.{p}')
          if s is not None:
            o = s
            continue
        raise AnchorMissing(f'{dotted}: {p} not found')
    return o
