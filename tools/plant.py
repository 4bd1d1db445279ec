#!/usr/bin/env python3
"""plant.py SPEC.py [ids...]: builds /verif/seeded/<id>/ from specs and confirms each
in a scratch copy of /repo: applies, builds, passes the stable tests, demo 0 without and nonzero with."""
import sys,os,json,shutil,subprocess,re
V='/verif'; S='/tmp/seedcopy'
def sh(c,cwd=None,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
spec={}
exec(open(sys.argv[1]).read(),spec)
want=sys.argv[2:]
base=json.load(open('/opt/vp/BASELINE.json'))
def stable(d):
    for k in d:
        if 'pass' in k.lower() or 'stable' in k.lower(): return set(d[k])
shutil.rmtree(S,ignore_errors=True)
sh('git clone -q /repo '+S)
sh('cp /repo/go.mod /repo/go.sum '+S)
for b in spec['SEEDS']:
    i=b['id']
    if want and i not in want: continue
    sh('git checkout -q -- . && git clean -qfd -e go.mod -e go.sum',S)
    bad=None
    for f,o,n in b['edits']:
        p=os.path.join(S,f); t=open(p).read()
        if t.count(o)!=1: bad='%s: %d matches of %r'%(f,t.count(o),o[:70]); break
        open(p,'w').write(t.replace(o,n))
    if bad: print(i,'EDIT',bad); continue
    diff=sh('git diff',S).stdout
    # fake build: same commands as /opt/vp but on the copy
    D=os.path.join(V,'seeded',i); os.makedirs(D,exist_ok=True)
    open(D+'/patch.diff','w').write(diff)
    src=b['demo']
    imps=b.get('imports',[])
    open(D+'/main.go','w').write('package main\n\n'+(''.join('import "%s"\n'%x for x in imps))+'\n'+src)
    sh('gofmt -w main.go',D)
    shutil.copy(V+'/tools/kit/kit.go',D)
    if b.get('jwk'):
        shutil.copy(V+'/tools/kit/demo_jwk.sh',D+'/demo.sh'); shutil.copytree(V+'/mc/jwx',D+'/jwx',dirs_exist_ok=True)
    else: shutil.copy(V+'/tools/kit/demo.sh',D+'/demo.sh')
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(D+'/meta.json','w'),indent=1)
    # confirm on /repo
    clean=sh('bash %s/demo.sh'%D,'/repo')
    a=sh('git apply %s/patch.diff'%D,'/repo')
    try:
        if a.returncode: print(i,'APPLY',a.stderr); continue
        bl=sh('bash /opt/vp/build.sh'); ts=sh('bash /opt/vp/test.sh /tmp/seed_t.json')
        miss=stable(base)-stable(json.load(open('/tmp/seed_t.json')))
        dirty=sh('bash %s/demo.sh'%D,'/repo')
    finally: sh('git checkout -- .','/repo')
    ok=clean.returncode==0 and dirty.returncode==1 and bl.returncode==0 and not miss
    print(i,'OK' if ok else 'BAD','clean=%d dirty=%d build=%d missing=%s'%(clean.returncode,dirty.returncode,bl.returncode,miss or 'none'),(dirty.stdout or dirty.stderr).strip()[:150] if ok else (clean.stdout+clean.stderr+bl.stdout+bl.stderr+dirty.stdout+dirty.stderr)[:800])
shutil.rmtree(S,ignore_errors=True)
