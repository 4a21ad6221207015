import operator, json, warnings
warnings.simplefilter('ignore')
import numpy as np, numba
from numba.core.registry import cpu_target
from numba.core import types
from numba.core.typeconv import Conversion
ctx=cpu_target.typing_context; ctx.refresh(); cpu_target.target_context.refresh()
T={'u8':types.uint8,'u16':types.uint16,'u32':types.uint32,'u64':types.uint64,'i8':types.int8,'i16':types.int16,'i32':types.int32,'i64':types.int64,'bool':types.boolean,'f32':types.float32,'f64':types.float64}
inv={v:k for k,v in T.items()}
ops={'+':operator.add,'-':operator.sub,'*':operator.mul,'//':operator.floordiv,'%':operator.mod,'/':operator.truediv,'<<':operator.lshift,'>>':operator.rshift,'&':operator.and_,'|':operator.or_,'^':operator.xor,'<':operator.lt,'==':operator.eq}
nb={}
for o,f in ops.items():
    for a in T:
        for b in T:
            try:
                r=ctx.resolve_function_type(f,(T[a],T[b]),{})
                nb[f'{a}{o}{b}']=[inv[r.return_type],[inv[x] for x in r.args]]
            except Exception as e: nb[f'{a}{o}{b}']=None
un={}
for o,f in {'neg':operator.neg,'inv':operator.invert,'not':operator.not_}.items():
    for a in T:
        try:
            r=ctx.resolve_function_type(f,(T[a],),{}); un[f'{o}{a}']=[inv[r.return_type],[inv[x] for x in r.args]]
        except Exception as e: un[f'{o}{a}']=None
uni={}
for a in T:
    for b in T:
        r=ctx.unify_types(T[a],T[b]); uni[f'{a},{b}']=inv.get(r)
N={'u8':np.uint8,'u16':np.uint16,'u32':np.uint32,'u64':np.uint64,'i8':np.int8,'i16':np.int16,'i32':np.int32,'i64':np.int64,'bool':np.bool_,'f32':np.float32,'f64':np.float64,'int':int,'pybool':bool,'float':float}
ninv={v:k for k,v in N.items()}
ninv[np.longlong]='i64'; ninv[np.ulonglong]='u64'
np_={}
for o,f in ops.items():
    for a in N:
        for b in N:
            try: np_[f'{a}{o}{b}']=ninv[type(f(N[a](1),N[b](1)))]
            except TypeError as e: np_[f'{a}{o}{b}']=None
nun={}
for o,f in {'neg':operator.neg,'inv':operator.invert}.items():
    for a in N:
        try: nun[f'{o}{a}']=ninv[type(f(N[a](1)))]
        except TypeError as e: nun[f'{o}{a}']=None
json.dump(dict(numba=nb,numba_un=un,unify=uni,numpy=np_,numpy_un=nun,versions=[np.__version__,numba.__version__]),open('/tmp/tables.json','w'),indent=0,sort_keys=True)
for k in ('u32+u32','u32+i64','u64+i64','u64&i64','u64%i64','u64>>i64','u32>>u32','u32<<u32','u8+u8','u64^i64','u32%i64','u16//u16','u32~'): print(k,nb.get(k),np_.get(k))
for k in ('u64&int','u64+int','u16<<int','u64>>int','u32&int','u64%int','u64<int','u64>>u32','i32-u32','u64&u32'): print(k,np_[k])
print(un)
print(uni['u64,i64'],uni['u32,i64'],uni['u8,u64'],uni['bool,i64'])
