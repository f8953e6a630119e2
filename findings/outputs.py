"""Bounds of every output, and of layers of rank > 2 in pure crown, against samples."""
import numpy as np, keras
from keras.layers import *
from decomon.models import clone
rng = np.random.default_rng(0)
def nets():
    i=Input((2,)); a=Dense(3,activation="relu")(i); yield "outputs", keras.Model(i,[Dense(1)(a),Dense(2)(a)])
    i=Input((2,)); a=Dense(3,activation="relu")(i); yield "output inside", keras.Model(i,[a,Dense(2)(a)])
    i=Input((12,)); a=Reshape((2,2,3))(i); a=Permute((3,1,2))(a); yield "permute", keras.Model(i,Dense(2)(Flatten()(a)))
    i=Input((12,)); a=Reshape((2,2,3))(i); a=Conv2D(2,(1,2))(a); a=BatchNormalization()(a); yield "bn", keras.Model(i,Dense(2)(Flatten()(a)))
    i=Input((12,)); a=Reshape((2,2,3))(i); yield "flatten first", keras.Model(i,Dense(2)(Flatten(data_format="channels_first")(a)))
    i=Input((12,)); a=Reshape((4,3))(i); a=Dense(2,activation="relu")(a); yield "dense 3d", keras.Model(i,Dense(2)(Flatten()(a)))
for name,m in nets():
    m.set_weights([rng.normal(size=w.shape)*(1 if 'variance' not in w.name else 0)+(1 if 'variance' in w.name else 0) for w in m.weights])
    n=m.inputs[0].shape[1]
    for method in ["forward-ibp","forward-affine","forward-hybrid","crown","crown-forward-ibp","crown-forward-affine","crown-forward-hybrid"]:
        try:
            d=clone(m,method=method,final_ibp=True,final_affine=False)
            lo=rng.normal(size=(3,n)); hi=lo+1
            o=[np.array(t) for t in d(np.stack([lo,hi],1).astype("float32"))]
            xs=lo[:,None]+rng.random((3,200,n))*(hi-lo)[:,None]
            bad=0
            y=m(xs.reshape(-1,n).astype("float32")); y=y if isinstance(y,list) else [y]
            for k,t in enumerate(y):
                t=np.array(t).reshape(3,200,-1)
                u,l=o[2*k],o[2*k+1]
                bad=max(bad,(t-u[:,None]).max(),(l[:,None]-t).max())
            print(name,method,"OK" if bad<1e-4 else f"VIOLATED {bad}")
        except Exception as e: print(name,method, type(e).__name__, str(e)[:100])
