import os,subprocess,sys,json
def seed(id,prop,needs,breaks,edits,demo,extra=None, link=False, sh=None):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    W='/tmp/seedw/repo'
    subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
    for f,a,b in edits:
        p=W+'/'+f; s=open(p,newline='').read()
        n=s.count(a)
        assert n==1,(id,f,n,a)
        open(p,'w',newline='').write(s.replace(a,b))
    open(d+'/patch.diff','w').write(subprocess.check_output(['git','-C',W,'diff'],text=True))
    subprocess.check_call(['git','-C',W,'checkout','-q','--','.'])
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.cpp','w').write(demo)
    L='src/lib/.libs/liblightgrepint.a -licuuc -licudata -pthread' if link else ''
    open(d+'/demo.sh','w').write(sh or '''#!/bin/bash
# run in the repository's root after a build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
g++ -std=c++17 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined -include functional -include cstdint -I. -Iinclude -Isrc/lib "$D/demo.cpp" %s -o "$T/demo" || exit 2
ASAN_OPTIONS=detect_leaks=0 "$T/demo"
'''%L)
