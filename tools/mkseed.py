#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes seeded/<id>/ from a spec: edits (file, old, new), demo test and its package."""
import sys, subprocess, os, json, shutil
ns={}
exec(open(sys.argv[1]).read(), ns)
only=set(sys.argv[2:])
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    w="/tmp/mkseed"; shutil.rmtree(w,ignore_errors=True); subprocess.check_call(["cp","-a","/repo",w])
    for f,a,b in s["edits"]:
        t=open(f"{w}/{f}").read()
        assert t.count(a)==1,(s["id"],f,t.count(a),a)
        open(f"{w}/{f}","w").write(t.replace(a,b))
    diff=subprocess.run(["git","-C",w,"diff"],capture_output=True,text=True).stdout
    d=f"/verif/seeded/{s['id']}"; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+"/patch.diff","w").write(diff)
    json.dump(dict(property=s["property"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
    open(d+"/demo_test.go","w").write(s["test"])
    open(d+"/demo.sh","w").write(f'''#!/bin/bash
# Runs an in-package test laid over the working tree; exit 0 when it passes.
d="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
o="$(mktemp)"
trap 'rm -f "$o"' EXIT
printf '{{"Replace":{{"%s/{s["pkg"]}/zz_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$d" > "$o"
timeout 120 go test -count=1 -overlay "$o" -run '^TestZZDemo$' ./{s["pkg"]}
''')
    os.chmod(d+"/demo.sh",0o755)
    shutil.rmtree(w)
    print(s["id"])
