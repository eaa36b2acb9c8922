import sys,subprocess
def fix(f,msg,*pairs):
    p='/repo/include/itlib/'+f; s=open(p).read()
    for a,b in pairs:
        assert s.count(a)==1,(s.count(a),a); s=s.replace(a,b)
    open(p,'w').write(s)
    subprocess.check_call(['git','-C','/repo','commit','-qam','fix: '+msg])
    print(subprocess.check_output(['git','-C','/repo','log','--oneline','-1'],text=True).strip())
