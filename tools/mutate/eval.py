import sys, os, glob, subprocess, json, time, traceback
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','..','dv')); sys.setrecursionlimit(20000)
import llir, verify, replay, ct
from verify import *
def evaluate(build, field, W=3):
    """-> list of (job key, status)"""
    import multiprocessing as mp
    out=build
    verify.MOD=llir.Module([f for f in glob.glob(out+'/debug/deps/*.ll') if not os.path.basename(f).startswith('replay')])
    verify.BINARY=out+'/debug/replay'
    fields=[field] if field in FIELDS else list(FIELDS)
    jobs=[]
    for f in fields:
        F=FIELDS[f]
        for n,o in OPS.items():
            if o.kind=='bit':
                for i in (0,1,27,57,58,113,F.N-1): jobs.append(('F',f,n,'',i))
            else: jobs.append(('F',f,n,'',None))
            if 'rr' in o.args: jobs.append(('F',f,n,'alias',None))
            if n=='normalize': jobs.append(('F',f,n,'canon',None))
        jobs+=[('K',f,c,'',None) for c in CONSTS[f].split()]
        jobs+=[('M',f,h,v,None) for h in ('fill','filled') for v in MaskJob.VARIANTS]
        for c,C in CURVES.items():
            if C.F.name==f: jobs+=[('P',c,o,'',None) for o in POPS]
    if field not in FIELDS: jobs=[j for j in jobs if j[0] in 'PK']
    res={}
    with mp.get_context('fork').Pool(W, initializer=init_worker) as P:
        for t,r in P.imap_unordered(task_f,[('J',d,(),2,False,100) for d in jobs],chunksize=2): res[t[1]]=r
        bad=[d for d,r in res.items() if r.failures or r.error]
        S=[('S',d,3000,tuple(f.model for f in res[d].failures if f.model and d[0]=='F'),(),frozenset({'value','frame','panic','range'}),2) for d in bad[:40] if d[3]!='canon']
        cex={}
        for t,(c,n) in P.imap_unordered(task_f,S): cex[t[1]]=c
        # timing branches
    o=[]
    for d in bad:
        r=res[d]; o.append((keyof(d), str(r.failures[0])[:150] if r.failures else 'UNDECIDED '+r.error[-150:], (cex.get(d) or {}).get('kind')))
    br=[keyof(d) for d,r in res.items() if any(b[1]!='shift amount' for b in r.branches) and d[2] not in ('lower_hex','upper_hex','rand')]
    return o, br
if __name__=='__main__':
    o,br=evaluate(sys.argv[1], sys.argv[2], int(sys.argv[3]))
    json.dump({'bad':o,'br':br}, open(sys.argv[4],'w'))
