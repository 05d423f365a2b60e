#!/usr/bin/env python3
"""Confirms seeded bugs: seedcheck.py [ID...]  (default: all of /verif/seeded)
For each: the patch applies to a scratch copy of /repo, changes original lines, builds, passes the
stable tests, its demo passes without and fails with it; then runs the property's check on it."""
import sys,os,subprocess,json,shutil,re,concurrent.futures as cf
S='/verif/seeded'
env=dict(os.environ,PATH='/opt/veriftools/go1.23.12/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod -buildvcs=false',GOWORK='off')
base=json.load(open('/opt/vp/BASELINE.json'))
orig=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.split()[0]
def sh(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,env=env,capture_output=True,text=True,**k)
def one(i):
    d='/tmp/seed/'+i; s=S+'/'+i
    shutil.rmtree(d,ignore_errors=True); os.makedirs('/tmp/seed',exist_ok=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    dd='/tmp/seed/demo_'+i; shutil.rmtree(dd,ignore_errors=True); shutil.copytree(s,dd,ignore=shutil.ignore_patterns('*.diff','meta.json'))
    try:
        meta=json.load(open(s+'/meta.json'))
        r=sh(['bash',dd+'/demo.sh'],d,timeout=300)
        if r.returncode: return i,'DEMO FAILS UNPATCHED',r.stdout[-1500:]+r.stderr[-500:]
        a=sh(['git','apply',s+'/patch.diff'],d)
        if a.returncode: return i,'NOAPPLY',a.stderr
        # original lines?
        fl=None; own=0
        for l in open(s+'/patch.diff'):
            if l.startswith('--- a/'): fl=l[6:].strip()
            m=re.match(r'@@ -(\d+)',l)
            if m: n=int(m[1]); continue
            if fl and l.startswith('-') and not l.startswith('---'):
                b=sh(['git','blame','-s','-l','-L',f'{n},{n}','HEAD','--',fl],'/repo').stdout.split()[0].lstrip('^')
                if b[:12]!=orig[:12] and orig[:39] not in b and b not in orig: own+=1
                n+=1
            elif fl and l.startswith(' '): n+=1
        b=sh(['go','build','./...'],d)
        if b.returncode: return i,'NOBUILD',b.stderr
        t=sh(['go','test','-vet=off','-count=1','./...'],d)
        if t.returncode: return i,'TESTS FAIL',t.stdout[-800:]
        r=sh(['bash',dd+'/demo.sh'],d,timeout=300)
        if r.returncode==0: return i,'DEMO PASSES PATCHED',''
        v=d+'/.v'; os.makedirs(v); shutil.copy('/verif/known_findings.json',v)
        c=sh(['/verif/checker/bin/checker','check',d,v,meta['property'],'quick'],'/verif')
        return i,('caught' if c.returncode==1 else 'MISSED')+(' (removes %d own lines)'%own if own else ''),meta['property']+' '+'; '.join(l.strip()[:200] for l in c.stdout.splitlines()[-4:-1])
    except subprocess.TimeoutExpired: return i,'TIMEOUT',''
    finally:
        shutil.rmtree(d,ignore_errors=True); shutil.rmtree(dd,ignore_errors=True)
ids=sys.argv[1:] or sorted(os.listdir(S))
with cf.ThreadPoolExecutor(4) as ex:
    for i,st,o in ex.map(one,ids): print(f'{i:28} {st}  {o}')
