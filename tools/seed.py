#!/usr/bin/env python3
"""Make planted bugs under /verif/seeded from a description and verify them in scratch copies of /repo.
   seed.py FILE [-k substr]: FILE has blocks
     == id | property | needs | what it breaks
     @ file / <<< old / === / >>> new      edits
     @demo dir                              Go test (package clause first) run in that package directory
     <<< ... >>>"""
import sys,os,re,subprocess,shutil,json,concurrent.futures as cf
V='/verif'
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
def parse(f):
    cur=None; out=[]; mode=None; buf=[]
    for line in open(f):
        l=line.rstrip('\n')
        if mode is None and l.startswith('== '):
            i,p,n,w=[x.strip() for x in l[3:].split('|')]; cur={'id':i,'property':p,'needs':n,'breaks':w,'edits':[],'demo':None}; out.append(cur)
        elif mode is None and l.startswith('@demo '): fn=None; dd=l[6:].strip()
        elif mode is None and l.startswith('@ '): fn=l[2:].strip()
        elif l=='<<<' and mode is None: mode='old'; buf=[]
        elif l=='===' and mode=='old' and fn: old='\n'.join(buf); mode='new'; buf=[]
        elif l=='>>>' and mode:
            if fn: cur['edits'].append((fn,old,'\n'.join(buf)))
            else: cur['demo']=(dd,'\n'.join(buf)+'\n')
            mode=None
        elif mode: buf.append(l)
    return out
DEMO='''#!/bin/bash
# Runs demo_test.go beside this script as a test of the package it is about.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$repo/%(dir)s/zz_seed_demo_test.go" "$here/demo_test.go" > "$t/overlay.json"
cd "$repo" && go test -vet=off -count=1 -timeout 60s -overlay "$t/overlay.json" -run '^TestSeedDemo$' ./%(dir)s
'''
def sh(c,d): return subprocess.run(c,shell=True,cwd=d,env=env,capture_output=True,text=True)
def one(m):
    d=f'/tmp/seedw/{m["id"]}'; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d)
    sd=f'{V}/seeded/{m["id"]}'
    try:
        os.makedirs(sd,exist_ok=True)
        json.dump({'property':m['property'],'needs':m['needs'],'what_it_breaks':m['breaks']},open(sd+'/meta.json','w'),indent=1)
        open(sd+'/demo.sh','w').write(DEMO%{'dir':m['demo'][0]}); os.chmod(sd+'/demo.sh',0o755)
        open(sd+'/demo_test.go','w').write(m['demo'][1])
        r=sh(f'bash {sd}/demo.sh',d)
        if r.returncode: return m,'BAD demo fails on the unchanged tree\n'+(r.stdout+r.stderr)[-1500:]
        for fn,o,n in m['edits']:
            p=d+'/'+fn; s=open(p).read()
            if s.count(o)!=1: return m,f'BAD {s.count(o)} matches {fn}: {o[:60]}'
            open(p,'w').write(s.replace(o,n))
        pk='. ./stack ./sinks/... ./runtime_metrics'
        r=sh('gofmt -l $(git diff --name-only) ; git diff',d); diff=r.stdout[r.stdout.find('diff --git'):]
        note=r.stdout[:r.stdout.find('diff --git')]
        open(sd+'/patch.diff','w').write(diff)
        r=sh('go build '+pk,d)
        if r.returncode: return m,'BAD does not build\n'+r.stderr[:800]
        r=sh('go test -vet=off -count=1 -p 1 -cpu 1 '+pk,d)
        if r.returncode: return m,'BAD tests fail\n'+r.stdout[:800]
        r=sh(f'bash {sd}/demo.sh',d)
        if r.returncode==0: return m,'BAD demo passes with the patch'
        out=[x for x in r.stdout.split('\n') if x.strip()][:3]
        r=subprocess.run(['/tmp/hv','-noevidence','-repo',d,'-property',m['property']],capture_output=True,text=True)
        c='caught' if f'VIOLATION property={m["property"]}' in r.stdout else 'MISSED'
        return m,f'ok {c} [{" / ".join(out)[:150]}] {note}'
    finally: shutil.rmtree(d,ignore_errors=True)
if __name__=='__main__':
    k=sys.argv[sys.argv.index('-k')+1] if '-k' in sys.argv else ''
    ms=[m for m in parse(sys.argv[1]) if k in m['id']]
    with cf.ThreadPoolExecutor(1) as ex:
        for m,r in ex.map(one,ms): print(m['id'],m['property'],r)
