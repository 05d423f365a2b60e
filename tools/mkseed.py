#!/usr/bin/env python3
"""mkseed.py FILE: creates seeded bugs from SEEDS=[(id, prop, needs, breaks, [(path,old,new)], pkg, demo_go, race)]"""
import sys,os,subprocess,json,shutil
ns={}; exec(open(sys.argv[1]).read(),ns)
for sid,prop,needs,breaks,edits,pkg,demo,race in ns['SEEDS']:
    if len(sys.argv)>2 and sys.argv[2] not in sid: continue
    d='/tmp/mkseed'; shutil.rmtree(d,ignore_errors=True)
    subprocess.run(['git','-C','/repo','worktree','prune']); subprocess.run(['cp','-a','/repo',d],check=True)
    subprocess.run(['git','checkout','-q','--','.'],cwd=d)
    for p,o,n in edits:
        s=open(d+'/'+p).read()
        if s.count(o)<1: print(sid,'BADEDIT',o); break
        if s.count(o)>1: print(sid,'ambiguous',o)
        open(d+'/'+p,'w').write(s.replace(o,n,1))
    out='/verif/seeded/'+sid; os.makedirs(out,exist_ok=True)
    df=subprocess.run(['git','diff','-U3'],cwd=d,capture_output=True,text=True).stdout
    open(out+'/patch.diff','w').write(df)
    open(out+'/demo_test.go.txt','w').write(demo.lstrip())
    open(out+'/demo.sh','w').write(f'''#!/bin/bash
# Fails (non-zero) on the planted bug, passes on the unchanged tree. Run with cwd = the repository.
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$d"' EXIT
cp "$here/demo_test.go.txt" "$d/demo_test.go"
echo "{{\\"Replace\\":{{\\"$PWD/{pkg}/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}}}" > "$d/o.json"
go test -vet=off {'-race ' if race else ''}-overlay "$d/o.json" -count=1 -timeout 120s -run 'TestDemo' ./{pkg}/
''')
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(out+'/meta.json','w'),indent=1)
    shutil.rmtree(d,ignore_errors=True); print(sid)
