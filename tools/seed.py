#!/usr/bin/env python3
# tools/seed.py SPEC.json...  Makes and validates planted bugs in a scratch copy of /repo mounted over /repo in a private mount namespace.
# SPEC: {"id","property","needs","what","edits":[[file,old,new],...],"demo": js source}
# Keeps /verif/seeded/<id> only if: applies, builds, stable tests pass, demo 0 without and !=0 with the patch. Reports whether the quick check catches it.
import json,sys,os,subprocess,shutil
S='/tmp/seedrepo'; V='/verif'
def sh(c,t=900,cwd=None):
    r=subprocess.run(['unshare','-m','bash','-c',f'mount --bind {S} /repo && cd /repo && '+c],capture_output=True,text=True,timeout=t); return r.returncode,r.stdout+r.stderr
if not os.path.isdir(S): subprocess.run(['cp','-a','/repo',S],check=True)
subprocess.run(['git','-C',S,'checkout','-q','--','.'],check=True)
h=subprocess.check_output(['git','-C','/repo','rev-parse','HEAD'],text=True).strip()
if subprocess.check_output(['git','-C',S,'rev-parse','HEAD'],text=True).strip()!=h:
    subprocess.run(['git','-C',S,'fetch','-q','/repo','HEAD'],check=True); subprocess.run(['git','-C',S,'reset','-q','--hard',h],check=True)
nocheck='--nocheck' in sys.argv
for f in [a for a in sys.argv[1:] if not a.startswith('--')]:
    s=json.load(open(f)); i=s['id']; d=f'{V}/seeded/{i}'
    subprocess.run(['git','-C',S,'checkout','-q','--','.'],check=True)
    bad=None
    for p,o,n in s['edits']:
        t=open(f'{S}/{p}').read()
        if t.count(o)<1: bad=f'pattern not found in {p}: {o[:60]}'; break
        k=t.index(o); open(f'{S}/{p}','w').write(t[:k]+n+t[k+len(o):])
    if bad: print(i,'FAIL',bad); continue
    os.makedirs(d,exist_ok=True)
    diff=subprocess.check_output(['git','-C',S,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    if 'demo' in s: open(d+'/demo.js','w').write(s['demo'])
    for n,c in s.get('files',{}).items(): open(d+'/'+n,'w').write(c)
    if not os.path.exists(d+'/demo.sh') or 'demo' in s: open(d+'/demo.sh','w').write('#!/bin/bash\nexec node "$(dirname "$0")/demo.js"\n'); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['what']},open(d+'/meta.json','w'),indent=1)
    rc,o=sh('bash /opt/vp/build.sh')
    if rc: print(i,'FAIL build',o[-1500:]); continue
    rc,o=sh('bash /opt/vp/test.sh /tmp/seed-out.json')
    b=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/seed-out.json'))['passed']); m=[x for x in b if x not in p]
    if m: print(i,'FAIL tests',m[:5]); continue
    rc1,o1=sh(f'bash {d}/demo.sh',300)
    ck='-'
    if not nocheck:
        r=subprocess.run(['./check',s['property'],'quick'],cwd=V,env={**os.environ,'VP_REPO':S},capture_output=True,text=True); ck=f"{r.returncode} {[l for l in r.stdout.splitlines() if 'VIOLATION' in l or '  cell' in l][:1]}"[:300]
    subprocess.run(['git','-C',S,'checkout','-q','--','.'],check=True)
    rc,o=sh('bash /opt/vp/build.sh'); rc0,o0=sh(f'bash {d}/demo.sh',300)
    ok=rc1!=0 and rc0==0
    print(i,'OK' if ok else 'FAIL demo',f'with={rc1} without={rc0}',ck)
    if not ok: print(o1[-800:],'\n---',o0[-800:])
    else:
        cf=V+'/tools/caught.json'; c=json.load(open(cf)) if os.path.exists(cf) else {}
        if not nocheck: c[i]=(s['property']+' (quick)') if ck.startswith('1') else 'missed'; json.dump(c,open(cf,'w'),indent=1,sort_keys=True)
