# rverify.py [--checks all|own|C01,..] ids : benign patches must build, pass tests, keep checks at exit 0
import os, subprocess, json, sys, shutil, concurrent.futures as cf
SD=os.environ.get('BENDIR','/verif/benign')
args=sys.argv[1:]; checks='own'; par=int(os.environ.get('PAR','3')); tests=not os.environ.get('NOTEST')
if args and args[0]=='--checks': checks=args[1]; args=args[2:]
ids=args or sorted(os.listdir(SD))
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def one(id):
    d='/tmp/vw/r-'+id; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    os.makedirs(d+'/verif')
    subprocess.run('cp -a /verif/check.py /verif/checks.py /verif/engine /verif/rt /verif/harness /verif/known-findings.txt /verif/properties.jsonl /verif/MANIFEST.json %s/verif/; mkdir -p %s/verif/build %s/verif/evidence; cp -a /verif/build/symx* /verif/build/rt-* %s/verif/build/'%(d,d,d,d),shell=True)
    own=open(SD+'/%s/checks'%id).read().split()
    cl={'own':own,'all':['C%02d'%i for i in range(1,24)]}.get(checks, checks.split(','))
    open(d+'/run.sh','w').write('''set -x
mount --bind %(d)s/repo /repo; mount --bind %(d)s/verif /verif
cd /repo
git apply %(d)s/p.diff || echo bad > %(d)s/apply
%(t)s
cd /verif
for c in %(c)s; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c > %(d)s/$c.log 2>&1; echo $? > %(d)s/$c.rc; done
'''%dict(d=d,c=' '.join(cl),t='bash /opt/vp/test.sh %s/out.json > %s/test.log 2>&1'%(d,d) if tests else ''))
    shutil.copy(SD+'/%s/patch.diff'%id,d+'/p.diff')
    subprocess.run(['unshare','-m','bash',d+'/run.sh'],stdout=open(d+'/log','w'),stderr=subprocess.STDOUT)
    rd=lambda f: open(d+'/'+f).read().strip() if os.path.exists(d+'/'+f) else '?'
    res=[]
    if os.path.exists(d+'/apply'): res.append('NOAPPLY')
    if tests:
        try: o=json.load(open(d+'/out.json')); miss=stable-set(o['passed'])
        except Exception as e: miss={'nobuild'}
        if not o['passed']: miss={'nobuild'}
        if miss: res.append('TESTS:'+','.join(sorted(miss)))
    cs=['%s:%s'%(c,'quiet' if rd(c+'.rc')=='0' and 'VIOLATION' not in rd(c+'.log') else 'ALARM' if 'VIOLATION' in rd(c+'.log') else 'rc='+rd(c+'.rc')) for c in cl]
    print(id, 'OK' if not res else 'INVALID '+' '.join(res), ' '.join(cs), flush=True)
    if all('quiet' in c for c in cs) and not res: shutil.rmtree(d)
    else: shutil.rmtree(d+'/repo',ignore_errors=True)
with cf.ThreadPoolExecutor(par) as ex: list(ex.map(one,ids))
