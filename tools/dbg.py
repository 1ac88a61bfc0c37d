import sys; sys.path[:0]=['/verif','/verif/lib']
import sys as _s
from vc import loader; loader.load()
import importlib; importlib.import_module("contracts."+sys.argv[1])
from contracts.api import PROPS
from vc.engine import Eng
import traceback
pid,name=sys.argv[2],sys.argv[3]
v=[v for v in PROPS[pid].vcs if v.name==name][0]
import check
log=[]
N=int(sys.argv[4] if len(sys.argv)>4 else 2)
SHOWINV = len(sys.argv)>5 and 'i' in sys.argv[5]
oe=Eng.explore
def explore(self,run):
    log.clear(); 
    def run2():
        try: run()
        except Exception as x:
            from vc.engine import Abort,PathEnd
            if not isinstance(x,Abort):
                log.append("HARNESS "+traceback.format_exc()); 
            raise
    return oe(self,run2)
Eng.explore=explore
import os
if os.environ.get("KILL"):
    from vc import loops
    ow=loops.Cut.weaken
    def weaken(self,cands,fe,gv,none):
        for c in cands:
            if all(k in str(c) for k in os.environ["KILL"].split(",")):
                t=loops.inst(c,fe,gv,none)
                if t is not None and not self.e.valid(t):
                    print("KILLED",self.cur_loc(),c,"trace",[c for c,n in self.e.trace]); print("   ",str(t)[:1500]); print("   pc",[str(p)[:700] for p in self.e.pc])
        return ow(self,cands,fe,gv,none)
    loops.Cut.weaken=weaken
orig=Eng.prove
def prove(self,cond,nm,info=None):
    r=orig(self,cond,nm,info)
    if not r and sum(1 for l in log if l.startswith("FAIL "+nm))<N:
        o=["FAIL "+nm+"  "+str(self.obls[nm].models[-1]['info'] if self.obls[nm].models else '')]
        if SHOWINV:
            for (k,l),inv in self.loopinv.items():
                o.append(f"INV {k} {l} kinds={inv.kinds}")
                for c in inv.cands or (): o.append("     "+str(c))
        o.append("  trace"+str([c for c,n in self.trace]))
        for p in self.pc: o.append("    "+str(p).replace("\n"," ")[:300])
        for f in traceback.extract_stack()[:-1]:
            if '/verif/contracts' in f.filename or '/repo' in f.filename: o.append(f"   at {f.filename} {f.lineno}")
        log.append("\n".join(o))
    return r
Eng.prove=prove
res=check.run_vc((pid,PROPS[pid].vcs.index(v)))
print("\n".join(log)); print(res['problems'], res['wall'], res['rounds'],res['paths'])
for o in res['obligations']:
    if o['fail'] or o['unknown']: print("X",o['name'],o['ok'],o['fail'],o['unknown'])
