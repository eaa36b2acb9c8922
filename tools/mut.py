#!/usr/bin/env python3
# mut.py CHECKS(comma) file  old ||| new  [more pairs via repeated]   : runs checks on a mutated include copy
import sys,shutil,subprocess,tempfile,os
checks,f=sys.argv[1],sys.argv[2]
d=tempfile.mkdtemp(prefix='mut_'); shutil.copytree('/repo/include',d+'/include')
p=d+'/include/itlib/'+f; s=open(p).read()
for a in sys.argv[3:]:
    old,new=a.split('|||')
    n=s.count(old)
    if n!=1: print('COUNT',n,repr(old)); 
    if n<1: sys.exit(3)
    s=s.replace(old,new,1)
open(p,'w').write(s)
for c in checks.split(','):
    r=subprocess.run(['python3','/verif/run.py',c,'--include',d+'/include','--no-evidence'],capture_output=True,text=True)
    o=(r.stdout+r.stderr).strip().split('\n')
    v=[l for l in o if 'MC-FAIL' in l or 'AddressSan' in l or 'VIOLATION' in l or 'error:' in l]
    print(c,'rc',r.returncode,' | '.join((v or o[-3:])[:3])[:600])
shutil.rmtree(d)
