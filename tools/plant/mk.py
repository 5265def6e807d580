"""mk.py bugs-file [id...]: builds /verif/seeded/<id> from a python file defining BUGS."""
import sys, os, subprocess, shutil, json, runpy
sys.path.insert(0, '/tmp/seedwork')
W='/tmp/seedwork/wt'
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
BASE=json.load(open('/opt/vp/BASELINE.json'))
def tests():
    # run the tests in worktree
    p=sh('cd %s && . /opt/vp/env.sh && go test ./... 2>&1 | grep -v "no test files"'%W)
    return 'FAIL' not in p.stdout and 'ok' in p.stdout, p.stdout
bugs=runpy.run_path(sys.argv[1])['BUGS']
only=sys.argv[2:]
for b in bugs:
    if only and b['id'] not in only: continue
    shutil.rmtree(W, ignore_errors=True); sh('cp -a /repo %s'%W)
    d='/tmp/seedwork/new/'+b['id']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    ok=True
    for f,old,new in b['edits']:
        s=open(W+'/'+f).read()
        if s.count(old)!=1: print(b['id'],'EDIT not unique',f,s.count(old),repr(old[:60])); ok=False; break
        open(W+'/'+f,'w').write(s.replace(old,new))
    if not ok: continue
    p=sh('cd %s && . /opt/vp/env.sh && gofmt -l internal cmd; go build ./... && go vet ./...'%W)
    if p.returncode: print(b['id'],'BUILD',p.stdout); continue
    if p.stdout.strip(): print(b['id'],'fmt',p.stdout.strip())
    t,out=tests()
    if not t: print(b['id'],'TESTS FAIL',[l for l in out.split('\n') if 'FAIL' in l][:5]); continue
    open(d+'/patch.diff','w').write(sh('cd %s && git diff'%W).stdout)
    for f in ('hprof.py','demo.sh'): shutil.copy('/tmp/seedwork/'+f,d)
    if b.get('nohprof'): os.remove(d+'/hprof.py')
    open(d+'/demo.py','w').write(b['demo'].lstrip('\n'))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['what']},open(d+'/meta.json','w'),indent=1)
    g=sh('bash %s/demo.sh'%d,cwd='/repo'); bad=sh('bash %s/demo.sh'%d,cwd=W)
    good= g.returncode==0 and bad.returncode!=0
    print(b['id'],'good' if good else '*** BAD', g.returncode, bad.returncode, '' if g.returncode==0 else g.stdout[-600:], '|', bad.stdout[-300:].strip())
    if good:
        shutil.rmtree(d+'/__pycache__', ignore_errors=True)
        shutil.rmtree('/verif/seeded/'+b['id'], ignore_errors=True); shutil.copytree(d,'/verif/seeded/'+b['id'])
shutil.rmtree(W, ignore_errors=True)
