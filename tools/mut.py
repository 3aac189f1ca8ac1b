#!/usr/bin/env python3
"""Development aid: run the analysis on small edits of /repo (in a scratch copy).
   mut.py FILE...   each FILE has blocks:   == name | expected ids (comma separated, or - for a harmless edit)
                    @ file / <<< old / === / >>> new
   usage: mut.py [-k substr] [-p props] files"""
import sys,os,re,subprocess,shutil,argparse,concurrent.futures as cf
ap=argparse.ArgumentParser(); ap.add_argument('-k',default=''); ap.add_argument('-p',default='all'); ap.add_argument('-v',action='store_true'); ap.add_argument('-t',action='store_true',help='also run repo tests'); ap.add_argument('files',nargs='+')
A=ap.parse_args()
def parse(f):
    cur=None; out=[]; mode=None; buf=[]
    for line in open(f):
        l=line.rstrip('\n')
        if mode is None and l.startswith('== '):
            n,_,e=l[3:].partition('|'); cur={'name':n.strip(),'exp':[x for x in e.strip().split(',') if x.strip() and x.strip()!='-'],'edits':[]}; out.append(cur)
        elif mode is None and l.startswith('@ '): fn=l[2:].strip()
        elif l=='<<<': mode='old'; buf=[]
        elif l=='===' and mode=='old': old='\n'.join(buf); mode='new'; buf=[]
        elif l=='>>>' and mode=='new': cur['edits'].append((fn,old,'\n'.join(buf))); mode=None
        elif mode: buf.append(l)
    return out
def run(i,m):
    d=f'/tmp/mutw/{i}'; shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,ignore=shutil.ignore_patterns('.git'))
    try:
        for fn,o,n in m['edits']:
            p=d+'/'+fn; s=open(p).read()
            if s.count(o)<1: return m,'STALE '+fn+': '+o[:50],''
            if s.count(o)>1: return m,'AMBIGUOUS '+fn+': '+o[:50],''
            open(p,'w').write(s.replace(o,n))
        r=subprocess.run(['/tmp/hv','-noevidence','-repo',d,'-property',(','.join(m['exp']) if A.p=='exp' else A.p)],capture_output=True,text=True)
        ids=sorted(set(re.findall(r'VIOLATION property=(C\d+)',r.stdout)))
        st=''
        if A.t:
            q=subprocess.run('GOFLAGS=-mod=mod GOPROXY=off go test -vet=off -count=1 . ./stack ./sinks/librato 2>&1 | grep -c "^--- FAIL"',shell=True,cwd=d,capture_output=True,text=True)
            st=' testfails='+q.stdout.strip()
        if r.returncode not in (0,1): return m,'ERROR '+(r.stderr or r.stdout)[:800],''
        exp=m['exp']
        ok=(not ids) if not exp else any(e in ids for e in exp)
        if A.p not in('all','exp') and exp and not any(e in A.p for e in exp): ok=True
        return m,('ok   ' if ok else 'BAD  ')+','.join(ids)+st, r.stdout
    finally: shutil.rmtree(d,ignore_errors=True)
ms=[m for f in A.files for m in parse(f) if A.k in m['name']]
with cf.ThreadPoolExecutor(6) as ex:
    for m,res,out in ex.map(lambda t:run(*t),enumerate(ms)):
        print(f"{res:40} {m['name']}  exp={','.join(m['exp']) or '-'}")
        if A.v or res.startswith('BAD'): print('\n'.join('      '+l[:300] for l in out.split('\n') if not l.startswith('OK'))[:1500])
