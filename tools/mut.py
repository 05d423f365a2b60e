#!/usr/bin/env python3
"""Self-test driver: applies source edits to a scratch copy of /repo and runs checks on it.
usage: mut.py FILE [name-substring]   FILE: python file defining M = [(name, expect, [(path, old, new[, count])], [props])]
expect: 'V' the checks listed must report a violation, 'Q' they must stay quiet."""
import re,sys,subprocess,shutil,os,concurrent.futures as cf
ns={}
exec(open(sys.argv[1]).read(),ns)
pat=sys.argv[2] if len(sys.argv)>2 else ''
env=dict(os.environ,PATH='/opt/veriftools/go1.23.12/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod -buildvcs=false',GOWORK='off')
def run(m):
    name,exp,edits,props=m
    d='/tmp/mut/'+name.replace('/','_')
    shutil.rmtree(d,ignore_errors=True)
    subprocess.run(['mkdir','-p','/tmp/mut'])
    subprocess.run(['cp','-a','/repo',d],check=True)
    out=[]
    try:
        for ed in edits:
            p,old,new=ed[:3]
            f=d+'/'+p; s=open(f).read()
            if old not in s: return name,'BADEDIT',[p+': '+old[:60]]
            s=s.replace(old,new) if len(ed)>3 and ed[3]==0 else s.replace(old,new,ed[3] if len(ed)>3 else 1)
            open(f,'w').write(s)
        b=subprocess.run(['go','build','./...'],cwd=d,env=env,capture_output=True,text=True)
        if b.returncode: return name,'NOBUILD',[b.stderr[:500]]
        v=d+'/.v'; os.makedirs(v); shutil.copy('/verif/known_findings.json',v) if os.path.exists('/verif/known_findings.json') else None
        res=[]
        for p in props:
            r=subprocess.run([os.environ.get('CHECKER','/verif/checker/bin/checker'),'check',d,v,p,'quick'],capture_output=True,text=True)
            res.append((p,r.returncode))
            lines=[l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
            if (exp=='V' and r.returncode!=1) or (exp=='Q' and (r.returncode!=0)) or any(l.startswith('undecided') for l in lines) or '-v' in sys.argv:
                out+=[p+' rc=%d '%r.returncode]+['    '+l for l in lines[-14:]]+r.stderr.splitlines()[-12:]
        ok=all(rc==(1 if exp=='V' else 0) for _,rc in res)
        return name,('ok' if ok else 'FAIL '+exp+' '+str(res)),out
    finally:
        shutil.rmtree(d,ignore_errors=True)
ms=[m for m in ns['M'] if re.search(pat,m[0])]
bad=0
with cf.ThreadPoolExecutor(int(os.environ.get("J","6"))) as ex:
    for name,st,out in ex.map(run,ms):
        if st!='ok': bad+=1
        print(f'{st:10} {name}')
        for l in out: print('      ',l)
print(len(ms),'mutants,',bad,'not as expected')
