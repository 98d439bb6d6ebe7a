#!/usr/bin/env python3
# seedcheck.py [-c] ID...: confirms planted bugs (builds, passes the stable tests, demo 0 on the clean tree and not 0
# with the patch); -c also runs the check of its property.
import sys,subprocess,tempfile,shutil,os,json,concurrent.futures as cf
ids=[a for a in sys.argv[1:] if not a.startswith('-')]; checks='-c' in sys.argv; nodemo='-n' in sys.argv
if not ids: ids=sorted(os.listdir('/verif/seeded'))
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd,cwd,**k): return subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,**k)
PRE='. /opt/vp/env.sh 2>/dev/null; '
def one(sid):
    res=[sid]; s='/verif/seeded/'+sid; d=tempfile.mkdtemp(prefix='sc')
    try:
        meta=json.load(open(s+'/meta.json'))
        shutil.copytree('/repo',d+'/repo')
        dm=d+'/demo'; shutil.copytree(s,dm,ignore=shutil.ignore_patterns('*.diff','meta.json'))
        r=d+'/repo'
        if not nodemo:
            o=sh('bash %s/demo.sh'%dm,r); res.append('clean=%d'%o.returncode)
            if o.returncode: res.append(o.stdout[-600:]+o.stderr[-600:])
        o=sh('git apply %s/patch.diff'%s,r)
        if o.returncode: res.append('NO APPLY '+o.stderr); return res
        if not nodemo:
            o=sh(PRE+'go build $(go list ./... | grep -vx zRep/test)',r)
            if o.returncode: res.append('NO BUILD '+o.stderr); return res
            o=sh(PRE+'go test -json -vet=off -count=1 -timeout 10m $(go list -e ./... | grep -vx zRep/util/shuffle)',r)
            ok=set()
            for l in o.stdout.splitlines():
                try: e=json.loads(l)
                except Exception: continue
                if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Package']+'/'+e['Test'])
            if base-ok: res.append('TESTS FAIL %s'%(base-ok))
            o=sh('bash %s/demo.sh'%dm,r); res.append('patched=%d'%o.returncode+' '+o.stdout.strip()[-200:])
            if not o.returncode: res.append('DEMO MISSES')
        if checks:
            v=d+'/verif'; shutil.copytree('/verif',v,ignore=shutil.ignore_patterns('.git','seeded'))
            for p in [meta['property']]+[a[2:] for a in sys.argv if a.startswith('-p')]:
                o=sh('./run.sh '+p,v,env=dict(os.environ,ZREP_REPO=r,VERIF_SEED='1',VERIF_TIER='quick'))
                keys=sorted(set(l.split(':')[0][:150] for l in o.stdout.splitlines() if not l.startswith('VIOLATION')))
                res.append('%s rc=%d %s'%(p,o.returncode,' ; '.join(keys)[:300]+(o.stderr[-300:] if o.returncode==2 else '')))
    finally: shutil.rmtree(d,ignore_errors=True)
    return res
with cf.ThreadPoolExecutor(3 if not checks else 1) as ex:
    for r in ex.map(one,ids): print(' | '.join(r),flush=True)
