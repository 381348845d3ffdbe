import sys, os, json, subprocess, shutil, tempfile
def mk(id, prop, edits, needs, breaks, demo, flags='', sh=None):
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    t=tempfile.mkdtemp(prefix='/tmp/mks.')
    for f in {e[0] for e in edits}:
        for ab in 'ab':
            os.makedirs(os.path.dirname('%s/%s/%s'%(t,ab,f)), exist_ok=True); shutil.copy('/repo/'+f, '%s/%s/%s'%(t,ab,f))
    for f,o,n in edits:
        p='%s/b/%s'%(t,f); s=open(p).read()
        if s.count(o)!=1: sys.exit('%s: %d matches of %r'%(id,s.count(o),o))
        open(p,'w').write(s.replace(o,n))
    r=subprocess.run(['git','diff','--no-index','--no-color','a','b'],cwd=t,capture_output=True,text=True).stdout
    r=r.replace('a/a/','a/').replace('b/b/','b/')
    open(d+'/patch.diff','w').write(r)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    open(d+'/demo.cc','w').write(demo)
    open(d+'/demo.sh','w').write(sh or '''#!/bin/bash
# exit 0: the behaviour is as specified; 1: it is not
R=$PWD; H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d)
S=$(find "$R/src" -name '*.cc' ! -name 'exp_*' ! -name 'check.cc')
g++ -std=gnu++17 -O1 -march=native -include cstdint -pthread %s -I"$R/src" "$H/demo.cc" $S -o "$D/demo.x" || { rm -r "$D"; exit 0; }
cd "$D"; timeout 60 ./demo.x; rc=$?
cd /; rm -r "$D"; [ $rc = 0 ]
''' % flags)
    shutil.rmtree(t)
