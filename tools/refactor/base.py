import sys,os,subprocess,shutil
which=sys.argv[1:]
def r(id,checks,*edits):
    if which and not any(id.startswith(w) for w in which): return
    d='/tmp/ref/w_'+id; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo/include',d)
    for f,o,n in edits:
        p=d+'/itlib/'+f; s=open(p).read()
        if o not in s: print(id,'EDIT NOT FOUND',f,o[:80]); shutil.rmtree(d); return
        open(p,'w').write(s.replace(o,n))
    out=[]
    for c in checks:
        p=subprocess.run(['python3','/verif/run.py',c,'--include',d,'--no-evidence'],text=True,capture_output=True)
        out.append('%s:%s'%(c,'quiet' if p.returncode==0 else 'ALARM %d %s'%(p.returncode,(p.stdout+p.stderr)[-900:])))
    print(id,' '.join(out),flush=True)
    shutil.rmtree(d)
