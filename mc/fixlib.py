import subprocess,sys
def fix(path,pairs,msg):
    import os;ROOT=os.environ.get('FIXROOT','/repo');p=ROOT+'/'+path
    s=open(p,newline='').read()
    for a,b in pairs:
        assert s.count(a)==1,(s.count(a),a)
        s=s.replace(a,b)
    open(p,'w',newline='').write(s)
    if msg:
        subprocess.check_call(['git','-C',ROOT,'commit','-qam','fix: '+msg])
        print(subprocess.check_output(['git','-C',ROOT,'log','--oneline','-1'],text=True).strip())
