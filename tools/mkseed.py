#!/usr/bin/env python3
# mkseed.py ID FILE OLD NEW [FILE OLD NEW ...]: writes seeded/ID/patch.diff
import sys,subprocess,tempfile,shutil,os
sid=sys.argv[1]; out='/verif/seeded/'+sid; os.makedirs(out,exist_ok=True)
d=tempfile.mkdtemp(prefix='seed')
subprocess.run(['git','clone','-q','/repo',d+'/r'],check=True)
a=sys.argv[2:]
for i in range(0,len(a),3):
    p=d+'/r/'+a[i]; s=open(p).read(); n=s.count(a[i+1])
    if n!=1: print(n,"matches for",a[i+1]); sys.exit(1)
    open(p,'w').write(s.replace(a[i+1],a[i+2]))
diff=subprocess.run(['git','diff'],cwd=d+'/r',capture_output=True,text=True).stdout
open(out+'/patch.diff','w').write(diff)
# lines that are changed must be original ones
base=subprocess.run(['git','log','--format=%H','--reverse'],cwd=d+'/r',capture_output=True,text=True).stdout.split()[0]
f=None;ln=0
for l in diff.splitlines():
    if l.startswith('--- a/'): f=l[6:]
    elif l.startswith('@@'): ln=int(l.split()[1][1:].split(',')[0])
    elif l.startswith('-') and not l.startswith('---'):
        b=subprocess.run(['git','blame','-l','-s','-L%d,%d'%(ln,ln),'HEAD','--',f],cwd=d+'/r',capture_output=True,text=True).stdout
        print('original' if b.lstrip('^')[:30] in base else 'OURS','|',l)
        ln+=1
    elif not l.startswith('+'): ln+=1
shutil.rmtree(d)
