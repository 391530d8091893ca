import sys,time
sys.path.insert(0,'/verif/engine')
sys.setrecursionlimit(20000)
from mir import *; import absint as A, models as Mo
from terms import *
P=Program(sys.argv[1])
pat=sys.argv[2]
verb=len(sys.argv)>3
def mk():
    I=A.Interp(P); I.expanding=[]; I.expandstack=[]; I.csz={}; I.streams=()
    return I
def cs(s): return [tshow(c) if isinstance(c,tuple) and isinstance(c[1],(tuple)) and c[0]!='isv' else c for c in s.conds]
def consume(I,fn,sub,s,ch,de):
    s=s.fork()
    cell=I.newcell(s,('bs',tuple(ch)))
    I.streams=(cell,)
    I.loopctx=[]
    res=[]
    for (s2,kind,v) in I.run_fn(fn,sub,[('ref',cell,())],s,2):
        if kind in('bad','unsup','panic'):
            res.append((kind,str(v),s2)); continue
        v=I.rderef(s2,v)
        if v[0]=='agg' and v[1]==RES and v[2]==1:
            res.append(('err','decoder rejects',s2)); continue
        if v[0]!='agg' or v[1]!=RES:
            res.append(('unsup','returns '+tshow(v),s2)); continue
        rest=s2.mem[cell]
        rest=('bs',I.drop_empty(s2,rest[1]))
        if rest!=('bs',()):
            res.append(('rest',tshow(rest),s2)); continue
        if de:
            e=I.equal(s2,v[3][0],('p','self'))
            if e is not True:
                res.append(('val%s'%e,tshow(I.nf(s2,v[3][0])),s2)); continue
        res.append(('ok','',s2))
    return res
for i in P.impl_by_trait['SerializeRevisioned']:
    T=A.erase(i['selfty'])
    if pat not in show(T) : continue
    I=mk()
    t0=time.time()
    if T[0]=='array' and T[2].isdigit():
        if int(T[2]) not in (1,3,32): continue
        I.lens[('p','self')]=C(int(T[2]))
    try:
        ps=Mo.producer(I,T,('p','self'),'ser',A.St())
    except (A.Unsup,A.Mismatch) as e:
        print(show(T),'!!',type(e).__name__,e.why,e.sp); continue
    print(show(T), len(ps))
    if verb:
      for s,ch in ps or []:
        print('    ', cs(s), tshow(('bs',ch)))
    for tr,m,de in (('DeserializeRevisioned','deserialize_revisioned',1),('SkipRevisioned','skip_revisioned',0),('SkipRevisioned','skip_revisioned_slice',0)):
        r=P.find_impl(tr,T)
        if not r: print('   no',tr); continue
        im,sub=r
        it=im['items_by_name'].get(m)
        if not it:
            fn=[f for f in P.fns.values() if f.path.endswith('SkipRevisioned::skip_revisioned_slice') or f.name==m and f.path.count('impl')==0][0]
            sb={'Self':T}
        else:
            fn=P.fns[it['key']]; sb=I.fn_subst(fn,sub,[])
        for s,ch in ps:
            try:
                rr=consume(I,fn,sb,s,ch,de)
            except (A.Unsup,A.Mismatch) as e:
                rr=[(type(e).__name__,str((e.why,e.sp)),s)]
            for k,w,s2 in rr:
                if k!='ok' or verb: print('   ',m,k,w[:300],'free' if s2.free else '', cs(s2) if verb or k!='ok' else '')
    print('   %.1fs'%(time.time()-t0))
