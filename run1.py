import sys, time, json, os
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import numpy, pandas, xarray, h5py, z3
from symex import runner
import importlib
p=sys.argv[1]; tier=sys.argv[2] if len(sys.argv)>2 else 'quick'
mod=importlib.import_module('props.'+p)
cfgs=mod.configs(tier)
sel=[int(i) for i in sys.argv[3].split(',')] if len(sys.argv)>3 and sys.argv[3] else range(len(cfgs))
budget=float(os.environ.get('BUDGET','60'))
jobs=[runner.Job(i,runner.explore_config,('props.'+p,cfgs[i],budget,1,3),budget+60) for i in sel]
t0=time.time()
seen=set()
def tb(t): 
    L=t.strip().splitlines()
    return ' || '.join(l.strip() for l in L if 'File' in l and 'verif/symex' not in l and 'site-packages' not in l)[-600:]+' ## '+' | '.join(l.strip() for l in L if 'File' in l and ('symex' in l or 'site-pack' in l))[-300:]+' ## '+L[-1][:300]
def show(k,res):
    print('== config',k,cfgs[k])
    if res[0]!='ok': print(str(res)[-1500:]); return
    r=res[1]; s=r['stats']
    print('  complete',r['complete'],r['why'],'wall %.1f'%r['wall'],'paths',s.paths,'ok',s.paths_ok,'undec',s.paths_undecided,'abort',s.aborted,'dec',s.decisions,'q',s.queries,'st %.1f'%s.solver_time,'checks',s.checks,'disch',s.checks_discharged,'narrow',s.narrowed,r['narrow'],'unk',s.unknown)
    if os.environ.get('V'): print('  reached',s.reached)
    if s.unsupported: print('  unsupported',s.unsupported)
    for k_,m,v in r['candidates'][:60]:
        if (k_,m) in seen: continue
        seen.add((k_,m))
        print('  CAND',k_,m[:300],str(v)[:500])
    for t in r['tracebacks'].values():
        t=tb(t)
        if t in seen: continue
        seen.add(t); print('   TB',t)
res=runner.run_jobs(jobs,on_result=show)
rj=[]
for k,x in res.items():
    if x[0]=='ok':
        per={}
        for j,(kd_,m,v) in enumerate(x[1]['candidates']):
            per[m]=per.get(m,0)+1
            if per[m]>2: continue
            rj.append(runner.Job((k,'cand',j,m),runner.replay,('props.'+p,cfgs[k],v),120))
        for j,v in enumerate(x[1]['samples']):
            rj.append(runner.Job((k,'sample',j,json.dumps(v)),runner.replay,('props.'+p,cfgs[k],v),120))
rr=runner.run_jobs(rj)
from collections import Counter
print(Counter((k[1],v[0],v[1][0] if v[0]=='ok' else '') for k,v in rr.items()))
seen=set()
for k,v in rr.items():
    bad = v[0]!='ok' or (k[1]=='sample' and v[1][0]!='ok') or (k[1]=='cand')
    if bad:
        msg=str(v[1][1]) if v[0]=='ok' else str(v[1])
        msg=msg.splitlines()[0][:200]+((' TB '+tb(msg)) if 'Traceback' in msg else '')
        key=(k[1],str(k[3])[:200] if k[1]=='cand' else '',v[0],v[1][0] if v[0]=='ok' else '',msg)
        if key in seen: continue
        seen.add(key)
        print('REPLAY',k[:3],str(k[3])[:300],'=>',key[2:])
print('total %.1f'%(time.time()-t0))
