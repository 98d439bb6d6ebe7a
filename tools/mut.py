#!/usr/bin/env python3
# mut.py PROP FILE OLD NEW [FILE OLD NEW ...]: run a check against a mutated copy
import sys,subprocess,tempfile,shutil,os,re
def main():
    prop=sys.argv[1]; d=tempfile.mkdtemp(prefix='mut'); r=d+'/repo'
    shutil.copytree(os.environ.get('BASE','/repo'),r,ignore=shutil.ignore_patterns('.git'))
    a=sys.argv[2:]
    for i in range(0,len(a),3):
        p=r+'/'+a[i]; s=open(p).read()
        old=a[i+1].encode().decode('unicode_escape'); new=a[i+2].encode().decode('unicode_escape')
        n=s.count(old)
        if n==0: print("NOT FOUND",old); shutil.rmtree(d); return
        if n>1: print("warning",n,"matches")
        open(p,'w').write(s.replace(old,new))
    v=d+'/verif'; shutil.copytree('/verif',v,ignore=shutil.ignore_patterns('.git','seeded'))
    for pr in prop.split(','):
        o=subprocess.run(['./run.sh',pr],cwd=v,env=dict(os.environ,ZREP_REPO=r,VERIF_SEED='1',VERIF_TIER='quick'),capture_output=True,text=True)
        t=o.stdout
        keys=sorted(set(l.split(':')[0][:150] for l in t.splitlines() if not l.startswith('VIOLATION')))
        print(pr,'rc',o.returncode,'|',' ; '.join(keys)[:500], o.stderr[-300:] if o.returncode==2 else '')
    shutil.rmtree(d)
main()
