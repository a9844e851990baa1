import os, subprocess, json, shutil, textwrap
def mk(pid, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/'+pid
    os.makedirs(d, exist_ok=True)
    w = '/tmp/mk/wt'
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(['git','-C','/repo','worktree','add','-q','--detach',w,'HEAD'])
    try:
        for f, old, new in edits:
            s = open(w+'/'+f).read()
            assert s.count(old) >= 1, (pid, f, old)
            assert s.count(old) == 1, (pid, f, 'ambiguous', s.count(old))
            open(w+'/'+f,'w').write(s.replace(old,new))
        diff = subprocess.check_output(['git','-C',w,'diff'], text=True)
        # blame: changed lines must be original
        open(d+'/patch.diff','w').write(diff)
        import re
        for f,_,_ in edits:
            cur=0
            bl = subprocess.check_output(['git','-C','/repo','blame','-s','HEAD','--',f],text=True).splitlines()
            on = False
            for line in diff.splitlines():
                if line.startswith('--- a/'): on = line[6:]==f
                m = re.match(r'@@ -(\d+)', line)
                if m: cur=int(m.group(1)); continue
                if not on or line.startswith(('---','+++','diff','index')): continue
                if line.startswith('-'):
                    if not bl[cur-1].startswith('^adcce8e'): print(pid,'NOT ORIGINAL:',bl[cur-1])
                    cur+=1
                elif line.startswith(' '): cur+=1
    finally:
        subprocess.check_call(['git','-C','/repo','worktree','remove','--force',w])
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    open(d+'/demo.py','w').write(textwrap.dedent(demo).lstrip())
    open(d+'/demo.sh','w').write('#!/bin/bash\n# run with the repository as working directory, after its build\nPYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=${OMP_NUM_THREADS:-1} OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d+'/demo.sh',0o755)
