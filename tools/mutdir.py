#!/usr/bin/env python3
"""mutdir.py FILE NAME DIR: a copy of /repo with one self-test mutant applied."""
import sys,shutil,subprocess
ns={}; exec(open(sys.argv[1]).read(),ns)
m=[x for x in ns['M'] if x[0]==sys.argv[2]][0]; d=sys.argv[3]
shutil.rmtree(d,ignore_errors=True); subprocess.run(['cp','-a','/repo',d],check=True)
for ed in m[2]:
    p,o,n=ed[:3]; f=d+'/'+p; s=open(f).read(); assert o in s,p
    open(f,'w').write(s.replace(o,n) if len(ed)>3 and ed[3]==0 else s.replace(o,n,ed[3] if len(ed)>3 else 1))
