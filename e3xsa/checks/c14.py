"""C14: cache faults never corrupt or prevent results.

The table generators are interpreted over uninterpreted coefficients and a modelled file
system in which one fault is injected at one point: existence test, opening, reading the
archive, reading each of its entries, missing entries, opening
for writing, writing.  Rule 'fault': no injected error reaches the caller, and the table
equals the one a run without caches returns.  Rule 'recovery': so does the next request
after the fault is gone, whatever the faulty run left behind (a write that fails midway
leaves a truncated archive).
"""

import errno
import itertools
import zipfile
import zlib

from .. import arr as A
from .. import lib
from .. import poly
from .. import run
from .. import tables as T
from ..errors import EngineError, Unsupported
from ..run import Obligation as Ob

PATH = '/cache/a.npz'


def mk(e):
  return e[0](*e[1:])


# errors a damaged or inaccessible archive makes numpy/zipfile raise, determined by
# flipping every bit and truncating at every length of archives written by numpy
LOAD = {
    'bad zip file': (zipfile.BadZipFile, 'File is not a zip file'),
    'zlib error': (zlib.error, 'Error -3 while decompressing data'),
    'no data': (EOFError, 'No data left in file'),
    'not a zip or npy file': (ValueError, 'Cannot load file containing pickled data when allow_pickle=False'),
    'unknown compression': (NotImplementedError, 'That compression method is not supported'),
    'encrypted flag': (RuntimeError, "File 'cg.npy' is encrypted, password required for extraction"),
    'input/output error': (OSError, errno.EIO, 'Input/output error'),
    'a plain array': (TypeError, "'numpy.ndarray' object does not support the context manager protocol"),
    'stale handle': (OSError, errno.ESTALE, 'Stale file handle'),
}
OPEN = {
    'no permission': (PermissionError, errno.EACCES, 'Permission denied'),
    'vanished': (FileNotFoundError, errno.ENOENT, 'No such file'),
    'a directory': (IsADirectoryError, errno.EISDIR, 'Is a directory'),
    'too many files': (OSError, errno.EMFILE, 'Too many open files'),
}
WRITE = {
    'no permission': (PermissionError, errno.EACCES, 'Permission denied'),
    'no such directory': (FileNotFoundError, errno.ENOENT, 'No such file'),
    'a directory': (IsADirectoryError, errno.EISDIR, 'Is a directory'),
    'read-only': (OSError, errno.EROFS, 'Read-only file system'),
}
MID = {
    'disk full': (OSError, errno.ENOSPC, 'No space left on device'),
    'input/output error': (OSError, errno.EIO, 'Input/output error'),
    'quota': (OSError, errno.EDQUOT, 'Disk quota exceeded'),
}


def damage(content, how, key, err):
  c = dict(content)
  if how == 'missing':
    c.pop(key)
  elif how == 'unreadable':
    c[key] = mk(err)
  return c


def scenario(kind, where, cached, request, fault):
  """fault: (stage, name, error, extra)."""
  t = T.Tables(kind)
  fs = t.fs
  want = {L: t.request(L) for L in {request, max(request - 1, 0), request + 1}}

  def content(d):
    shipped, fs.package = fs.package, {}
    t.cache('/ref/table.npz')
    t.request(d)
    t.cache(None)
    fs.package = shipped
    if '/ref/table.npz' not in fs.files:
      raise Unsupported('no cache file is written')
    return fs.files.pop('/ref/table.npz')

  stage, name, err, extra = fault
  c = content(cached) if cached is not None else None
  if c is not None and stage == 'entry':
    how, i = extra
    keys = sorted(c)
    if i >= len(keys):
      return dict(problems=[], facts=0)
    key = keys[i]
    name = f'{how} entry {key}'
    c = damage(c, how, key, err)
  injected = mk(err) if err else None
  exists, load = lib.FakePath.exists, None
  t.cache(PATH if where != 'package' or stage in ('write', 'midway') else None)
  if stage == 'load':
    c = lib.Corrupt(injected)
  if c is not None:
    if where in ('user', 'both'):
      fs.files[PATH] = c
    if where in ('package', 'both'):
      fs.package[t.resource] = c
  if stage == 'open' and where in ('user', 'both'):
    fs.fail_read = injected
  if stage == 'open' and where in ('package', 'both'):
    fs.package[t.resource] = injected
  if stage == 'write':
    fs.fail_write = injected
  if stage == 'midway':
    fs.fail_savez = injected
  if stage == 'exists':
    def bad(o):
      if o.p == PATH:
        raise injected
      return exists(o)
    lib.FakePath.exists = lib.FakePath.is_file = bad
  what = f'{kind} cache ({where}, degree {cached}) with fault {stage}: {name}'
  facts = 0
  try:
    steps = [('request', request)]
    steps += [('clear', None), ('request', request), ('request', max(request - 1, 0)), ('request', request + 1)]
    for op, L in steps:
      if op == 'clear':
        lib.FakePath.exists = lib.FakePath.is_file = exists
        fs.fail_read = fs.fail_write = fs.fail_savez = None
        continue
      try:
        r = t.request(L)
      except EngineError:
        raise
      except Exception as x:
        if x is injected or isinstance(x, (IndexError, KeyError, ValueError, TypeError, OSError, EOFError, zipfile.BadZipFile, zlib.error, RuntimeError)):
          return [run.Finding('fault', f'{kind} {stage}', f'{what}: {type(x).__name__} reaches the caller: {str(x)[:120]}', str(poly.LOC[0]))]
        raise
      facts += T.size(r)
      d = T.difference(kind, r, want[L], L)
      if d:
        return [run.Finding('recovery' if L != request else 'fault', f'{kind} {stage}', f'{what}: the table for degree {L} is wrong: {d}')]
  finally:
    lib.FakePath.exists = lib.FakePath.is_file = exists
  return dict(problems=[], facts=facts)


def scenarios(kind, items):
  facts = 0
  for i in items:
    r = scenario(kind, *i)
    if isinstance(r, list):
      return r
    facts += r['facts']
  return dict(problems=[], facts=facts)


def obligations(tier):
  th = tier == 'thorough'
  obs = []
  for kind in T.KINDS:
    D = (1, 2) if th else (1,)
    for where in ('user', 'package', 'both'):
      items = []
      for cached, req in itertools.product(D, (0, 1, 2) if kind != 'wigner_d' or th else (0, 1)):
        for n, e in LOAD.items():
          items.append((where, cached, req, ('load', n, e, None)))
        for n, e in OPEN.items():
          items.append((where, cached, req, ('open', n, e, None)))
        if where != 'package':
          for n, e in OPEN.items():
            items.append((where, cached, req, ('exists', n, e, None)))
        for i in range(6):
          for how in ('missing', 'unreadable'):
            if how == 'unreadable' and not th and cached == req == 1:
              for n, e in LOAD.items():
                items.append((where, cached, req, ('entry', n, e, (how, i))))
            else:
              items.append((where, cached, req, ('entry', 'bad CRC', (zipfile.BadZipFile, 'Bad CRC-32'), (how, i))))
      for cached, req in itertools.product((None, 0, 1), (1, 2) if kind != 'wigner_d' or th else (1,)):
        for n, e in WRITE.items():
          items.append((where, cached, req, ('write', n, e, None)))
        for n, e in MID.items():
          items.append((where, cached, req, ('midway', n, e, None)))
      for i in range(0, len(items), 8):
        obs.append(Ob(f'{kind} {where} #{i // 8} ({items[i][3][0]} {items[i][3][1]} ...)', scenarios, (kind, items[i:i + 8]), 'fault, recovery', cost=1))
  return obs
