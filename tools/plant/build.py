import sys,os,subprocess,json,shutil,re
sys.path.insert(0,'/tmp/seed')
from bugs import BUGS
from concurrent.futures import ThreadPoolExecutor
SEED='/verif/seeded'
base=json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def one(b):
    i=b['id']; wt='/tmp/seed/wt/'+i
    shutil.rmtree(wt,ignore_errors=True); os.makedirs('/tmp/seed/wt',exist_ok=True)
    sh('cp -a /repo %s'%wt)
    try:
        sh('git checkout -q -- . ',cwd=wt)
        for f,o,n in b['edits']:
            t=open(wt+'/'+f).read()
            if t.count(o)!=1: return i,'EDIT matches %d in %s: %r'%(t.count(o),f,o[:60])
            open(wt+'/'+f,'w').write(t.replace(o,n))
        patch=sh('git diff',cwd=wt).stdout
        # original lines?
        removed=0; bad=[]
        for f in set(e[0] for e in b['edits']):
            bl=sh('git blame -s c8eac05..HEAD -- '+f,cwd='/repo').stdout.splitlines()
            bl=sh('git blame -s c8eac05..HEAD -- '+f,cwd='/repo').stdout.splitlines()
            for h in re.finditer(r'^@@ -(\d+),?(\d*) ',sh('git diff -U0 -- '+f,cwd=wt).stdout,re.M):
                s=int(h[1]); c=int(h[2]) if h[2] else 1
                for k in range(s,s+c):
                    removed+=1
                    if not bl[k-1].startswith('^'): bad.append(bl[k-1])
        d=SEED+'/'+i
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(patch)
        open(d+'/demo.py','w').write(b['demo'].lstrip('\n'))
        shutil.copy('/tmp/seed/common.py',d+'/common.py')
        shutil.copy('/tmp/seed/demo.sh',d+'/demo.sh'); os.chmod(d+'/demo.sh',0o755)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
        r0=sh('bash %s/demo.sh'%d,cwd='/repo'); r1=sh('bash %s/demo.sh'%d,cwd=wt)
        env=dict(os.environ,PYTHONPATH=wt,PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',MPLBACKEND='Agg',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1')
        t=sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --ignore=scaks/tests/test_all.py scaks/tests -o junit_family=xunit2 --junitxml=%s/j.xml; /usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/j.xml'%(wt,wt,wt),cwd=wt,env=env)
        o=json.load(open(wt+'/o.json'))
        miss=set(base)-set(o['passed'])
        return i,'%s | demo clean %d bug %d (%s) | tests missing %s | removed %d notorig %s'%('GOOD' if r0.returncode==0 and r1.returncode==1 and not miss and removed and not bad else 'PROBLEM',r0.returncode,r1.returncode,(r1.stdout+(r0.stdout+r0.stderr if r0.returncode else ''))[:300].strip(),miss or '',removed,bad)
    finally:
        shutil.rmtree(wt,ignore_errors=True)
want=sys.argv[1:]
with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one,[b for b in BUGS if not want or b['id'] in want]): print(*r,flush=True)
