import sys, math, traceback
sys.path.insert(0,'/verif')
import numpy as np
import jax as RJ, jax.numpy as rnp
from jax import lax as rlax
from sa import jaxmodel as J, arr as A, nodes as N
from sa.arr import Arr, asarray
from sa.chk import Ref
from sa.canon import Canon
import random
can=Canon()
def conc(x):
    x=asarray(x)
    out=[]
    for e in x.data:
        r=Ref({"#rng":random.Random(1),"#grid":0,"#pool":[], "#salt":0},can)
        v=r.ev(e); out.append(float(v) if x.kind!='b' else bool(v))
    return np.array(out).reshape(x.shape)
def cmp(a,b,path=""):
    if isinstance(b,(tuple,list)):
        assert len(a)==len(b),(path,len(a),len(b))
        for i,(x,y) in enumerate(zip(a,b)): cmp(x,y,path+f"[{i}]")
        return
    if isinstance(b,dict):
        assert list(a)==list(b); 
        for k in b: cmp(a[k],b[k],path+f"[{k}]")
        return
    a=conc(a); b=np.asarray(b)
    assert a.shape==b.shape,(path,a.shape,b.shape)
    assert (a.dtype==bool)==(b.dtype==bool),(path,a.dtype,b.dtype)
    assert np.allclose(a.astype(float),b.astype(float),rtol=1e-4,atol=1e-5,equal_nan=True),(path,a,b)
NS_M=dict(jnp=J.jnp,lax=J.lax,jax=None,nn=J.nn)
T=[l.strip() for l in open('/verif/selftest/modelexprs.txt') if l.strip() and not l.startswith('#')]
inputs=dict(
 v=[1.5,-2.,3.,.5], u=[.25,1.,-1.,2.], s=2.5, i=[2,0,1], m=[[1.,2.,3.],[4.,-5.,6.]], q=[[2.,1.],[1.,3.]], b=[True,False,True,True], c=[[True,False],[True,True]], w=[1.,float('nan'),3.,-1.], k=[3,1,2,1], p=[[0.,0.],[1.,2.],[3.,-1.]])
import os
bad=0
from sa import libs
try:
    mj=libs
except: pass
from sa.interp import Interp
for t in T:
    res=[]
    for which in "rm":
        if which=='r':
            env=dict(jnp=rnp,lax=rlax,jax=RJ,nn=RJ.nn); arr=rnp.array
        else:
            env=dict(jnp=J.jnp,lax=J.lax,jax=getattr(libs,'jax_ns',None) or J.jax,nn=J.nn); arr=J.jnp.array
        env.update({n:arr(x) for n,x in inputs.items()})
        try: res.append(eval(t,env))
        except Exception as e: res.append(e)
    r,m=res
    try:
        if isinstance(r,Exception):
            if not isinstance(m,Exception): print("REAL FAILS",t,type(r),str(r)[:100]); bad+=1
            continue
        if isinstance(m,Exception):
            print("MODEL FAILS",t,type(m).__name__,str(m)[:150]); bad+=1
            if os.environ.get('TB'): traceback.print_exception(m)
            continue
        cmp(m,r)
    except Exception as e:
        print("DIFF",t,type(e).__name__,str(e)[:300]); bad+=1
        if os.environ.get('TB'): traceback.print_exc()
print(len(T),"expressions",bad,"differences")
