#!/usr/bin/env python3
"""Plant a bug: mkseed.py SPEC.py   (a spec defines id, prop, needs, breaks, edits=[(file, old, new)], pkg, demo (Go test source, func TestDemo), optionally extra files)
Makes a scratch copy of /repo under /tmp, applies the edits, and keeps the change in /verif/seeded/<id> only if it builds,
the stable tests pass, and the demonstration passes without it and fails with it."""
import sys, os, json, subprocess, shutil, tempfile
spec={}
exec(open(sys.argv[1]).read(), spec)
env=dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
out='/verif/seeded/'+spec['id']
work=tempfile.mkdtemp(prefix='seed-', dir='/tmp')
repo=work+'/repo'
def fail(m):
    print(spec['id'],'REJECTED:',m); shutil.rmtree(work); sys.exit(1)
subprocess.check_call(['cp','-a','/repo',repo])
tmp=work+'/seed'; os.makedirs(tmp)
demo='''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
r=$(pwd)
exec go test -overlay <(echo "{\\"Replace\\":{\\"$r/%s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}") -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%s
'''%(spec['pkg'],spec['pkg'])
open(tmp+'/demo.sh','w').write(demo); os.chmod(tmp+'/demo.sh',0o755)
open(tmp+'/demo_test.go','w').write(spec['demo'].lstrip('\n'))
json.dump({'property':spec['prop'],'needs':spec['needs'],'what_it_breaks':spec['breaks']},open(tmp+'/meta.json','w'),indent=1)
def rundemo():
    p=subprocess.run(['bash',tmp+'/demo.sh'],cwd=repo,env=os.environ,capture_output=True,text=True)
    return p
p=rundemo()
if p.returncode!=0: fail('demo fails on the unchanged tree: '+(p.stdout+p.stderr)[-1500:])
for f,a,b in spec['edits']:
    s=open(repo+'/'+f).read()
    if s.count(a)!=1: fail('%s: %d places for %r'%(f,s.count(a),a))
    open(repo+'/'+f,'w').write(s.replace(a,b))
d=subprocess.run(['git','diff'],cwd=repo,capture_output=True,text=True).stdout
open(tmp+'/patch.diff','w').write(d)
# every removed line must be a line of the original repository
base=subprocess.run('git rev-list --max-parents=0 HEAD',shell=True,cwd=repo,capture_output=True,text=True).stdout.strip()
for f,a,b in spec['edits']:
    orig=subprocess.run(['git','show',base+':'+f],cwd=repo,capture_output=True,text=True).stdout.split('\n')
    for l in subprocess.run(['git','diff','-U0',f],cwd=repo,capture_output=True,text=True).stdout.split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in orig: print('  note: changes a line not in the original:',l)
p=subprocess.run(['go','build','./...'],cwd=repo,env=env,capture_output=True,text=True)
if p.returncode!=0: fail('does not build: '+p.stderr[-800:])
for k in range(2):
    p=subprocess.run(['go','test','-json','-vet=off','-count=1','-cpu','1','-timeout','3m','./...'],cwd=repo,env=env,capture_output=True,text=True)
    open(work+'/go.json','w').write(p.stdout)
    subprocess.run(['python3','/opt/vp/results.py',work+'/o.json','gojson:'+work+'/go.json'],capture_output=True)
    o=json.load(open(work+'/o.json'))
    miss=stable-set(o['passed'])
    if miss: fail('stable tests fail: '+' '.join(sorted(miss)))
p=rundemo()
if p.returncode==0: fail('demo passes with the change')
msg=[l for l in (p.stdout+p.stderr).split('\n') if l.strip()][:4]
shutil.rmtree(out,ignore_errors=True)
shutil.copytree(tmp,out)
shutil.rmtree(work)
print(spec['id'],'kept:',' | '.join(msg)[:300])
