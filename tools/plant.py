"""plant.py: python script helper; usage from other scripts: plant(id, prop, needs, breaks, [(file, old, new)...], demo)"""
import os, subprocess, json, shutil, sys
def plant(id, prop, needs, breaks, edits, demo):
    d='/verif/seeded/'+id
    shutil.rmtree('/tmp/w/repo', ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo','/tmp/w/repo'])
    for f,o,n in edits:
        p='/tmp/w/repo/'+f; s=open(p).read()
        if s.count(o)!=1: print('!!',id,'edit count',s.count(o),f,o[:60]); return False
        open(p,'w').write(s.replace(o,n))
    diff=subprocess.run(['git','-C','/tmp/w/repo','diff'],capture_output=True,text=True).stdout
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.py','w').write(demo)
    open(d+'/demo.sh','w').write('#!/bin/bash\n# exit 0: the property holds\nHERE="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$HERE/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    ok=True
    a=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    b=subprocess.run(['bash',d+'/demo.sh'],cwd='/tmp/w/repo',capture_output=True,text=True)
    if a.returncode!=0: print('!!',id,'demo fails on unchanged',a.stdout[-500:],a.stderr[-800:]); ok=False
    if b.returncode==0: print('!!',id,'demo passes on changed'); ok=False
    t=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','test/01_unit_tests','-p','no:cacheprovider'],cwd='/tmp/w/repo',capture_output=True,text=True)
    t0=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','test/01_unit_tests','-p','no:cacheprovider'],cwd='/repo',capture_output=True,text=True) if not hasattr(plant,'t0') else plant.t0
    plant.t0=t0
    f=lambda o:sorted(x.split(' - ')[0] for x in o.stdout.split('\n') if x.startswith('FAILED'))
    if f(t)!=f(t0): print('!!',id,'tests',set(f(t))-set(f(t0))); ok=False
    print(id,'ok' if ok else 'BAD',(b.stderr.strip().split('\n') or [''])[-1][:100],'| tests:',t.stdout.strip().split('\n')[-1])
    return ok
