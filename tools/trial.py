# trial.py FILE : FILE defines BUGS=[(name,prop,[(file,old,new)...])]; apply each in a scratch copy, build, test, run the check
import sys,os,subprocess,shutil,json
sys.path.insert(0,'/verif/tools')
import importlib.util
spec=importlib.util.spec_from_file_location('seed','/verif/tools/seed.py'); 
src=open('/verif/tools/seed.py').read().split('\na = sys.argv')[0]
ns={'__file__':'/verif/tools/seed.py'}; exec(compile(src.replace('"/tmp/scr"','"/tmp/scrT"').replace('/tmp/scr.json','/tmp/scrT.json'),'seed','exec'),ns)
S=ns['S']; sh=ns['sh']
b={}; exec(open(sys.argv[1]).read(),b); only=sys.argv[2:]
for name,prop,edits in b['BUGS']:
    if only and name not in only: continue
    ns['scratch'](); bad=False
    for f,a,c in edits:
        p=S+"/orocos_bfl/src/"+f; s=open(p).read()
        if s.count(a)!=1: print(name,'EDIT count',s.count(a),f,a[:60]); bad=True; break
        open(p,'w').write(s.replace(a,c))
    if bad: continue
    rc,o=ns['build']()
    if rc: print(name,'does not build',o[-800:],flush=True); continue
    m=ns['tests']()
    if m: print(name,'tests fail',m,flush=True); continue
    for p in prop.split(','):
        r=sh("python3 /verif/check.py %s quick"%p,env=dict(os.environ,VERIF_REPO=S,VERIF_BUILD="/tmp/scrTbuild",VERIF_OUT="/tmp/scrTout",VERIF_EVID="/tmp/scrTev",VERIF_SHRINK="0"))
        print(name,p,"CAUGHT" if r.returncode==1 else "MISSED rc=%d"%r.returncode,"" if r.returncode==1 else r.stdout[-200:].replace("\n"," | "),flush=True)
