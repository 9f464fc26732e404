"""Development tool: compares the library models of the analyser with the installed library.

Runs every catalogue operation for real (/opt/venv/bin/python tools/concordance.py 0|1, argument: x64
mode) and abstractly, and compares result shapes, dtypes and (interpreted) values.  No check uses it.
"""
import sys; sys.path.insert(0,'/verif'); sys.setrecursionlimit(20000)
import os
import jax
X64 = sys.argv[1]=='1'
jax.config.update('jax_enable_x64', X64)
import jax.numpy as jnp, numpy as np, e3x
from e3xsa import catalog, arr as A, poly
import functools
import traceback
class RealSess:
  def get(self,n):
    o=e3x
    for p in n.split('.')[1:]: o=getattr(o,p)
    return o
  def module(self,n,**kw):
    m=self.get(n)(**kw)
    def call(*a,**k):
      return m.init_with_output(jax.random.PRNGKey(0),*a,**k)[0]
    return call
def flat(r):
  if isinstance(r,(tuple,list)): return [q for x in r for q in flat(x)]
  return [r]
R=RealSess()
dts=[('float16',),('bfloat16',),('float32',)] if not X64 else [('float32',),('float64',)]
A.X64[0]=X64
bad=0;n=0;vals=0
for op in catalog.operations():
  if 'wigner' in op.name: continue
  for (dt,) in dts:
    A.X64[0]=X64
    s=catalog.session()
    D=A.todtype(dt)
    xs=[p.make((2,),D) for p in op.inputs]
    try: r=catalog.results(op.call(s,*xs))
    except Exception as e: print('ENGINE',op.name,dt,type(e).__name__,str(e)[:100]); bad+=1; continue
    memo={}
    def num(x):
      v=np.array([poly.evaluate(q,0,memo) for q in x.a.reshape(-1)],dtype=float).reshape(x.shape)
      return jnp.asarray(v).astype(str(x.dtype)) if str(x.dtype)!='bool' else jnp.asarray(v!=0)
    try: y=flat(op.call(R,*[num(x) for x in xs]))
    except Exception as e: print('REAL',op.name,dt,type(e).__name__,str(e)[:100]); bad+=1; continue
    n+=1
    if len(y)!=len(r): print('LEN',op.name); continue
    for a,b in zip(r,y):
      if str(a.dtype)!=str(b.dtype) or tuple(a.shape)!=tuple(b.shape):
        print('DT',op.name,dt,a.dtype,a.shape,b.dtype,b.shape); bad+=1
      elif dt in('float32','float64') and 'harm' not in op.name and 'tensor' not in op.name.lower() and op.group not in('layer','basis'):
        va=np.array([poly.evaluate(q,0,memo) for q in a.a.reshape(-1)]).reshape(a.shape)
        vb=np.asarray(b,dtype=float)
        ok=np.isclose(va,vb,rtol=1e-3,atol=1e-4)|~np.isfinite(va)
        vals+=ok.size
        if not ok.all():
          print('VAL',op.name,dt,va.reshape(-1)[:4],vb.reshape(-1)[:4]); bad+=1
print(n,vals,'bad',bad)
