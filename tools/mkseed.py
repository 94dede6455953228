import sys,os,json,subprocess,tempfile,shutil
# mkseed.mk(id, prop, file, [(old,new)...], demo_c, needs, breaks, defs)
DEMO_SH='''#!/bin/bash
# Builds the library's sources together with demo.c and runs it in a scratch folder.
set -e
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf -- "$t"' EXIT
src=$(sed -n '/set(urkel_sources/,/)/p' CMakeLists.txt | grep -o 'src/[a-z0-9_]*\\.c')
gcc -O1 -g -w -std=gnu90 -DURKEL_TLS=__thread -DURKEL_DEBUG %s -D_GNU_SOURCE -Iinclude -Isrc $src "$here/demo.c" -lpthread %s -o "$t/demo"
cd "$t"
timeout 200 ./demo
'''
def mk(id,prop,edits,demo,needs,breaks,defs='',ld='',sh=None):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    w=tempfile.mkdtemp(dir='/tmp')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm b'%(w,w),shell=True)
        for f,o,n in edits:
            p=w+'/'+f; s=open(p).read()
            assert s.count(o)==1,(id,f,s.count(o))
            open(p,'w').write(s.replace(o,n))
        diff=subprocess.check_output(['git','-C',w,'diff'])
        open(d+'/patch.diff','wb').write(diff)
    finally: shutil.rmtree(w)
    if demo: open(d+'/demo.c','w').write(demo)
    open(d+'/demo.sh','w').write(sh or DEMO_SH%(defs,ld))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
