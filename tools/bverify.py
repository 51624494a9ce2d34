# verify.py [--checks own|none|C01,C02] ids...
import os, subprocess, json, sys, shutil, concurrent.futures as cf, re
SD=os.environ.get('SEEDDIR','/verif/seeded')
args=sys.argv[1:]; checks='own'; par=4
if args and args[0]=='--checks': checks=args[1]; args=args[2:]
ids=args or sorted(os.listdir(SD))
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
base='da68b9b'
def one(id):
    d='/tmp/vw/'+id; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    subprocess.run(['cp','-a','/repo',d+'/repo'],check=True)
    os.makedirs(d+'/verif'); 
    subprocess.run('cp -a /verif/check.py /verif/checks.py /verif/engine /verif/rt /verif/harness /verif/known-findings.txt /verif/properties.jsonl /verif/MANIFEST.json %s/verif/; mkdir -p %s/verif/build %s/verif/evidence; cp -a /verif/build/symx* /verif/build/rt-* %s/verif/build/'%(d,d,d,d),shell=True)
    subprocess.run(['cp','-a',SD+'/'+id,d+'/demo'],check=True)
    meta=json.load(open(SD+'/%s/meta.json'%id))
    cl={'own':[meta['property']],'none':[]}.get(checks, checks.split(','))
    open(d+'/run.sh','w').write('''set -x
mount --bind %(d)s/repo /repo; mount --bind %(d)s/verif /verif; mount --bind %(d)s/demo /mnt
cd /repo
bash /mnt/demo.sh > %(d)s/demo0.log 2>&1; echo $? > %(d)s/demo0
git apply /mnt/patch.diff || echo bad > %(d)s/apply
bash /opt/vp/test.sh %(d)s/out.json > %(d)s/test.log 2>&1
bash /mnt/demo.sh > %(d)s/demo1.log 2>&1; echo $? > %(d)s/demo1
cd /verif
for c in %(c)s; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c > %(d)s/$c.log 2>&1; echo $? > %(d)s/$c.rc; done
'''%dict(d=d,c=' '.join(cl)))
    subprocess.run(['unshare','-m','bash',d+'/run.sh'],stdout=open(d+'/log','w'),stderr=subprocess.STDOUT)
    rd=lambda f: open(d+'/'+f).read().strip() if os.path.exists(d+'/'+f) else '?'
    res=[]
    if os.path.exists(d+'/apply'): res.append('NOAPPLY')
    try: o=json.load(open(d+'/out.json')); miss=stable-set(o['passed'])
    except Exception as e: miss={'nobuild'}
    if miss: res.append('TESTS:'+','.join(sorted(miss)))
    if rd('demo0')!='0': res.append('DEMO0='+rd('demo0'))
    if rd('demo1') in('0','9','?'): res.append('DEMO1='+rd('demo1'))
    # original lines removed?
    rem=[]
    f=None
    for l in open(SD+'/%s/patch.diff'%id):
        if l.startswith('--- a/'): f=l[6:].strip(); txt=subprocess.run(['git','-C','/repo','show',base+':'+f],capture_output=True,text=True).stdout.split('\n')
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip(): rem.append(l[1:].rstrip('\n') in txt)
    if not any(rem): res.append('NOORIG')
    cs=[]
    for c in cl:
        log=rd(c+'.log'); rc=rd(c+'.rc')
        v='VIOLATION' in log
        cs.append('%s:%s'%(c,'caught' if rc=='1' and v else 'MISSED' if rc=='0' else 'rc='+rc))
    print(id, 'OK' if not res else 'INVALID '+' '.join(res), ' '.join(cs), flush=True)
    if all('caught' in c for c in cs) and not res: shutil.rmtree(d)
    else: shutil.rmtree(d+'/repo',ignore_errors=True)
with cf.ThreadPoolExecutor(par) as ex: list(ex.map(one,ids))
