"""Statements of the package that no check interprets (union over E3XSA_COVOUT files)."""
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from e3xsa import run
cov = {}
for f in glob.glob(os.path.join(sys.argv[1], '*.cov.json')):
  for p, ls in json.load(open(f)).items():
    cov.setdefault(p, set()).update(ls)
for p in run.source_stats():
  q = run._short(p)
  if q.endswith('_test.py'):
    continue
  e = run.exec_lines(p)
  miss = sorted(e - cov.get(q, set()))
  print(f'{q}: {len(e) - len(miss)}/{len(e)}')
  src = open(p).read().split('\n')
  for l in miss:
    print('   ', l, src[l - 1].strip()[:110])
