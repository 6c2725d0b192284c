"""run a property's harnesses concretely with several random environments"""
import sys,random,traceback,re
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo')
import importlib
from vp.conc import ConcWorld, PathEnd
pid=sys.argv[1]; pat=re.compile(sys.argv[2] if len(sys.argv)>2 else '.')
m=importlib.import_module('props.'+pid.lower())
bad=0;n=0
for t in m.tasks('thorough'):
    if not pat.search(t.name) or not t.conc_ok or t.replay!="plain" or t.world: continue
    try:
        for salt in range(40):
            import vp.conc; vp.conc.SALT=str(salt) if salt else ""
            w=ConcWorld({})
            try: t.fn(w,**t.params); break
            except PathEnd:
                if salt==39: raise
        n+=1
        if w.fails: bad+=1; print("FAIL",t.name,w.fails[:3])
        if not w.nchecks: print("NOCHECK",t.name)
    except PathEnd: print("assume",t.name)
    except Exception as e: bad+=1; print("EXC",t.name,repr(e)[:300]); 
print(n,"ok-run",bad,"bad")
