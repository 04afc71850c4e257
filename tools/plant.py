import subprocess,tempfile,os,json,shutil,sys,concurrent.futures as cf
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV=dict(HOME='/root',PATH='/opt/venv/bin:/usr/local/bin:/usr/bin:/bin',PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',MPLBACKEND='Agg',MPLCONFIGDIR='/opt/vp/mpl',OPENBLAS_NUM_THREADS='1',OMP_NUM_THREADS='1',MKL_NUM_THREADS='1',NUMBA_NUM_THREADS='1')
def tests(repo):
    o=tempfile.mktemp(); x=tempfile.mktemp(suffix='.xml')
    subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','-n','3','--timeout=300','-p','randomly','--randomly-seed=0','--randomly-dont-reorganize','--ignore=tests/active_learning/test_bayes_info_gain.py','--continue-on-collection-errors','-o','junit_family=xunit2','--junitxml='+x,'tests'],cwd=repo,env=dict(ENV,PYTHONPATH=repo+'/src'),stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
    subprocess.run(['/usr/bin/python3','/opt/vp/results.py',o,'junit:'+x],stdout=subprocess.DEVNULL)
    j=json.load(open(o)); return sorted(STABLE-set(j['passed']))
def demo(repo,d):
    r=subprocess.run(['bash',os.path.join(d,'demo.sh')],cwd=repo,env=dict(ENV),stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=300)
    return r.returncode,r.stdout.decode()[-300:]
BASE='1205164'
def original(repo):
    """does every removed line come from the original repository?"""
    import re
    bad=[]
    d=subprocess.check_output(['git','-C',repo,'diff','-U0'],text=True); f=None
    for l in d.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
        if m:
            a,n=int(m.group(1)),int(m.group(2) or 1)
            if n==0: continue
            o=subprocess.check_output(['git','-C',repo,'blame','-s','-L','%d,+%d'%(a,n),'HEAD','--',f],text=True)
            bad+=[x for x in o.splitlines() if not x.startswith('^')]
    return bad
def plant(b):
    base=tempfile.mkdtemp(prefix='plant-'); repo=base+'/repo'
    try:
        subprocess.run(['git','clone','-q','/repo',repo],check=True)
        d=base+'/d'; os.makedirs(d)
        open(d+'/demo.sh','w').write('#!/bin/bash\n# run in the repository: exit 0 when the property holds\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(d+'/demo.py','w').write(b['demo'])
        rc0,o0=demo(repo,d)
        for f,old,new in b['edits']:
            p=repo+'/src/lop/'+f; s=open(p).read()
            n=s.count(old)
            if n!=1: return b['id'],'EDIT matches %d in %s: %s'%(n,f,old[:50])
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.check_output(['git','-C',repo,'diff'],text=True)
        nb=original(repo)
        if nb: return b['id'],'NOT ORIGINAL '+nb[0]
        rc1,o1=demo(repo,d)
        if rc0!=0 or rc1==0: return b['id'],'DEMO clean=%d %s patched=%d %s'%(rc0,o0,rc1,o1)
        bad=tests(repo)
        if bad: return b['id'],'TESTS fail: %s'%bad[:4]
        out='/verif/seeded/'+b['id']; os.makedirs(out,exist_ok=True)
        for f in ('demo.sh','demo.py'): shutil.copy(d+'/'+f,out)
        open(out+'/patch.diff','w').write(diff)
        json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['what']),open(out+'/meta.json','w'),indent=1)
        return b['id'],'kept'
    finally: shutil.rmtree(base,ignore_errors=True)
def go(bugs):
    with cf.ThreadPoolExecutor(3) as ex:
        for r in ex.map(plant,bugs): print(*r,flush=True)
